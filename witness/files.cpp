//@ preamble
#include "model_vector.h"
#include <GTMesh/Debug/Debug.h>
#include "model_file.h"
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#define EX extern "C"
EX void seen(size_t, size_t);
EX void content(const unsigned char*, size_t);
struct Chunk { size_t k; };
struct Probe { const unsigned char* at; size_t k; };
inline void BinarySerialize(BinarySerializer::ByteContainer& c, const Chunk& x) { c.extend(x.k); }
inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, Probe& x) { x.at = &*it; it += x.k; }
using Bytes = std::vector<unsigned char>;
inline void save(const Bytes& d, const std::string& n) {
    std::ofstream f(n, std::ios_base::binary);
    if (!f) throw std::runtime_error("");
    f.write((const char*)d.data(), d.size());
    f.close();
    if (!f) throw std::runtime_error("");
}
inline void load(Bytes& d, const std::string& n) {
    std::ifstream f(n, std::ios_base::binary);
    if (!f) throw std::runtime_error("");
    long k = (f.seekg(0, std::ios_base::end), f.tellg());
    f.seekg(0, std::ios_base::beg);
    d.resize(k);
    f.read((char*)d.data(), k);
    if (!f) throw std::runtime_error("");
}
#define CONTENT content(s.getData().data(), s.getData().size());
#define SPEC_CONTENT content(d.data(), d.size());
//@ section save std=string argmem=@(seen|content|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$
EX void w_impl_empty(const std::string& n) { BinarySerializer s; s.saveToFile(n); CONTENT }
EX void w_spec_empty(const std::string& n) { Bytes d; save(d, n); SPEC_CONTENT }
EX void w_impl_bytes(const std::string& n, size_t k) { BinarySerializer s; s.write(Chunk{k}); s.saveToFile(n); CONTENT }
EX void w_spec_bytes(const std::string& n, size_t k) { Bytes d; d.extend(k); save(d, n); SPEC_CONTENT }
EX void w_impl_partly_read(const std::string& n, size_t k, size_t j) { BinarySerializer s; s.write(Chunk{k}); Probe p{nullptr, j}; s.read(p); s.saveToFile(n); s.saveToFile(n); CONTENT }
EX void w_spec_partly_read(const std::string& n, size_t k, size_t j) { Bytes d; d.extend(k); save(d, n); save(d, n); SPEC_CONTENT }
EX void w_impl_values(const std::string& n, int a, double b, char c) { BinarySerializer s; s << a << b << c; s.saveToFile(n); CONTENT }
EX void w_spec_values(const std::string& n, int a, double b, char c) {
    Bytes d;
    for (size_t i = 0; i < 4; i++) d.push_back(((unsigned char*)&a)[i]);
    for (size_t i = 0; i < 8; i++) d.push_back(((unsigned char*)&b)[i]);
    d.push_back(c);
    save(d, n);
    SPEC_CONTENT
}
//@ section load std=string argmem=@(seen|content|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$
EX void w_impl_fresh(const std::string& n) { BinarySerializer s; s.loadFromFile(n); CONTENT }
EX void w_spec_fresh(const std::string& n) { Bytes d; load(d, n); SPEC_CONTENT }
EX void w_impl_used(const std::string& n, size_t k, size_t j) { BinarySerializer s; s.write(Chunk{k}); Probe p{nullptr, j}; s.read(p); s.loadFromFile(n); CONTENT }
EX void w_spec_used(const std::string& n, size_t k, size_t j) { Bytes d; d.extend(k); load(d, n); SPEC_CONTENT }
EX void w_impl_twice(const std::string& n, const std::string& m) { BinarySerializer s; s.loadFromFile(n); s.loadFromFile(m); CONTENT }
EX void w_spec_twice(const std::string& n, const std::string& m) { Bytes d; load(d, n); load(d, m); SPEC_CONTENT }
EX void w_impl_appended(const std::string& n, size_t k) { BinarySerializer s; s.loadFromFile(n); s.write(Chunk{k}); CONTENT }
EX void w_spec_appended(const std::string& n, size_t k) { Bytes d; load(d, n); d.extend(k); SPEC_CONTENT }
//@ section transfer std=string argmem=@(seen|content|mv_.*|mf_(opens|read|write|close))$ pure=@mf_(id|size)$
EX void w_impl_saved_loaded(const std::string& n, size_t k) { BinarySerializer s; s.write(Chunk{k}); s.saveToFile(n); BinarySerializer t; t.loadFromFile(n); const auto& r = t.getData(); content(r.data(), r.size()); }
EX void w_spec_saved_loaded(const std::string& n, size_t k) { Bytes d; d.extend(k); save(d, n); Bytes r; load(r, n); content(r.data(), r.size()); }
EX void w_impl_loaded_saved(const std::string& n, const std::string& m) { BinarySerializer s; s.loadFromFile(n); s.saveToFile(m); CONTENT }
EX void w_spec_loaded_saved(const std::string& n, const std::string& m) { Bytes d; load(d, n); save(d, m); SPEC_CONTENT }
