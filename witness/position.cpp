//@ preamble
// written by tools/gen_position.py
#include "model_vector.h"
#include <GTMesh/Debug/Debug.h>
#define MF_NO_FAILURE true
#include "model_file.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#define EX extern "C"
EX void seen(size_t);
struct Chunk { size_t k; };
struct Probe { const unsigned char* at; size_t k; };
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Chunk& x) { c.extend(x.k); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Probe& x) { x.at = &*it; it += x.k; }
// the reference: the bytes and the number of bytes already read
struct Ref {
    std::vector<unsigned char> d;
    size_t p = 0;
    Ref() = default;
    Ref(const Ref&) = default;
    Ref& operator=(const Ref&) = default;
    Ref(Ref&& o) noexcept : d(std::move(o.d)), p(o.p) { o.p = 0; }
    Ref& operator=(Ref&& o) noexcept { d = std::move(o.d); p = o.p; o.p = 0; return *this; }
    const std::vector<unsigned char>& getData() { return d; }
    void write(const Chunk& x) { d.extend(x.k); }
    void read(Probe& x) { if (p >= d.size()) p = 0; x.at = d.data() + p; p += x.k; }
    void clear() { d.clear(); p = 0; }
    void resetIterator() { p = 0; }
    void loadFromFile(const std::string& n) {
        std::ifstream f(n, std::ios_base::binary);
        if (!f) throw 0;
        long k = (f.seekg(0, std::ios_base::end), f.tellg());
        f.seekg(0, std::ios_base::beg);
        d.resize(k);
        f.read((char*)d.data(), k);
        if (!f) throw 0;
        p = 0;
    }
    void saveToFile(const std::string& n) {
        std::ofstream f(n, std::ios_base::binary);
        if (!f) throw 0;
        f.write((const char*)d.data(), d.size());
        f.close();
        if (!f) throw 0;
    }
};
struct Env { size_t k[8]; const std::string& n; };
template <class S, char... Ops> struct Run;
template <class S> struct Run<S> { static void go(S&, const Env&, int) {} };
#define OP(C, ...) template <class S, char... O> struct Run<S, C, O...> { static void go(S& s, const Env& e, int i) { (void)e; using Next = Run<S, O...>; __VA_ARGS__ } };
OP('W', s.write(Chunk{e.k[i]}); Next::go(s, e, i + 1);)
OP('R', { Probe p{nullptr, e.k[i]}; s.read(p); seen(p.at - s.getData().data()); } Next::go(s, e, i + 1);)
OP('C', s.clear(); Next::go(s, e, i);)
OP('Z', s.resetIterator(); Next::go(s, e, i);)
OP('L', s.loadFromFile(e.n); Next::go(s, e, i);)
OP('S', s.saveToFile(e.n); Next::go(s, e, i);)
OP('K', S t(s); Next::go(t, e, i);)
OP('M', S t(std::move(s)); Next::go(t, e, i);)
OP('m', S t(std::move(s)); Next::go(s, e, i); (void)t;)
OP('A', S t; t.write(Chunk{e.k[i]}); t = s; Next::go(t, e, i + 1);)
OP('N', S t; t.write(Chunk{e.k[i]}); t = std::move(s); Next::go(t, e, i + 1);)
OP('a', S t; t.write(Chunk{e.k[i]}); { Probe p{nullptr, e.k[i + 1]}; t.read(p); } s = t; Next::go(s, e, i + 2);)
OP('n', S t; t = std::move(s); Next::go(s, e, i);)
//@ section fresh std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$
EX void w_impl_WR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_RSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_RSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_CSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_CSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_LSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_LSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_KSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_KSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_MSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_MSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_maR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_maR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_mSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_mSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_AnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_AnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_ASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_ASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_NSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_NSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_amR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_amR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_anR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_anR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_aSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_aSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_naR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_naR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_nSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_nSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_SSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_SSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$
EX void w_impl_WRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_rewritten std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$
EX void w_impl_WRWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_write std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRWWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRWSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'W', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRWSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'W', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_read std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRRWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRRSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'R', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRRSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'R', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_clear std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRCWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRCSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'C', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRCSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'C', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_reset std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRZWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRZSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'Z', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRZSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'Z', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_load std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRLWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRLSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'L', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRLSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'L', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_copy std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRKWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRKSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'K', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRKSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'K', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_move std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRMWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRManR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRManR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRMSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'M', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRMSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'M', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_being_moved std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRmWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRmSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'm', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRmSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'm', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_copy_assign std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRAWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRARSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRARSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRACSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRACSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRALSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRALSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRANSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRANSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRAnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRAnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRASSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'A', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRASSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'A', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_move_assign std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRNWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRNSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'N', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRNSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'N', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_overwrite std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRaWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRammR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRammR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRamSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRamSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRannR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRannR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRanSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRanSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRaSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'a', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRaSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'a', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_being_move_assigned std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRnWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRnSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'n', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRnSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'n', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
//@ section used_after_save std=string argmem=@(seen|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$ thorough
EX void w_impl_WRSWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSWSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'W', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSRSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'R', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSCSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'C', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSZSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'Z', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSLSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'L', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSKSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'K', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSMSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'M', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSmSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'm', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSARR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSACR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSALR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSANR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSAnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSASR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'A', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSNSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'N', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSamR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSanR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSaSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'a', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSnSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'n', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSWR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'W', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSRR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'R', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSCR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'C', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSZR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'Z', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSLR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'L', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSKR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'K', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSMR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'M', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSmR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'm', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSAR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'A', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSNR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'N', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSaR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'a', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSnR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'n', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_impl_WRSSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { BinarySerializer s; Run<BinarySerializer, 'W', 'R', 'S', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
EX void w_spec_WRSSSR(const std::string& n, size_t a, size_t b, size_t c, size_t d, size_t f, size_t g, size_t h) { Ref s; Run<Ref, 'W', 'R', 'S', 'S', 'S', 'R'>::go(s, Env{{a, b, c, d, f, g, h}, n}, 0); }
