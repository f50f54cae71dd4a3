//@ preamble
#include "meshref.h"
#include <stdexcept>
using u32 = unsigned int; using u64 = unsigned long;
template <class I, unsigned N> using S = SubelementContainer<I, N>;
// a list filled with the first k of the given values
template <unsigned K, class C, class I> C fill(const I* v) { C c; for (unsigned i = 0; i < K; ++i) c.addSubelement(v[i]); return c; }
template <class C, class I> bool holds(const C& c, const I* v, unsigned n) {
    if (c.size() != n || c.getNumberOfSubElements() != n || c.end() - c.begin() != long(n) || c.cend() - c.cbegin() != long(n)) return false;
    for (unsigned i = 0; i < n; ++i) if (c[i] != v[i] || c.begin()[i] != v[i] || c.at(i) != v[i]) return false;
    return true;
}
#define FILL(M, I) M(I,1,0) M(I,1,1) M(I,2,0) M(I,2,1) M(I,2,2) M(I,3,2) M(I,3,3) M(I,4,3) M(I,4,4) M(I,6,0) M(I,6,1) M(I,6,5) M(I,6,6)
#define NM(K, X, I, N, L) w_##K##_##X##_##I##_##N##_##L
//@ section append range
#define M(I, N, L) \
EX bool NM(true, add, I, N, L)(const I* v) { auto c = fill<L, S<I, N>>(v); return holds(c, v, L) && c.reserve() == N; } \
EX bool NM(true, mutend, I, N, L)(const I* v) { auto c = fill<L, S<I, N>>(v); return c.end() - c.begin() == L; } \
EX bool NM(true, push, I, N, L)(const I* v) { S<I, N> c; for (unsigned i = 0; i < L; ++i) c.push_back(v[i]); return holds(c, v, L); }
FILL(M, u64) FILL(M, u32)
//@ section refuse range std=string
#define M(I, N) \
EX void w_throw_full_##I##_##N(const I* v, I x) { auto c = fill<N, S<I, N>>(v); c.addSubelement(x); } \
EX void w_throw_fullpush_##I##_##N(const I* v, I x) { auto c = fill<N, S<I, N>>(v); c.push_back(x); }
M(u64,1) M(u64,2) M(u64,4) M(u32,3) M(u32,6)
#undef M
#define M(I, N, L) EX void NM(throw, remove, I, N, L)(const I* v) { auto c = fill<L, S<I, N>>(v); c.removeSubelement(L); }
FILL(M, u64)
//@ section remove range std=string
template <unsigned N, unsigned L, unsigned J, class I> bool rem(const I* v) {
    auto c = fill<L, S<I, N>>(v); c.removeSubelement(J);
    I w[N]; unsigned n = 0;
    for (unsigned i = 0; i < L; ++i) if (i != J) w[n++] = v[i];
    return holds(c, w, n);
}
template <unsigned N, unsigned L, unsigned J, class I> bool again(const I* v, I x) {
    auto c = fill<L, S<I, N>>(v); c.removeSubelement(J); c.addSubelement(x);
    I w[N]; unsigned n = 0;
    for (unsigned i = 0; i < L; ++i) if (i != J) w[n++] = v[i];
    w[n++] = x;
    return holds(c, w, n);
}
#define M(I, N, L, J) EX bool w_true_remove_##I##_##N##_##L##_##J(const I* v) { return rem<N, L, J>(v); } \
EX bool w_true_readd_##I##_##N##_##L##_##J(const I* v, I x) { return again<N, L, J>(v, x); }
M(u64,1,1,0) M(u64,2,2,0) M(u64,2,2,1) M(u64,4,3,1) M(u64,4,4,0) M(u64,4,4,3) M(u32,6,6,2) M(u32,6,6,5) M(u32,6,2,0)
//@ section dynamic std=vector
template <class I> using V = SubelementContainer<I, 0>;
#define M(I) \
EX void w_impl_add_##I(V<I>& c, I x) { c.addSubelement(x); } \
EX void w_spec_add_##I(std::vector<I>& c, I x) { c.push_back(x); } \
EX I w_impl_size_##I(const V<I>& c) { return c.getNumberOfSubElements(); } \
EX I w_spec_size_##I(const std::vector<I>& c) { return c.size(); } \
EX void w_impl_remove_##I(V<I>& c, unsigned char j) { c.removeSubelement(j); } \
EX void w_spec_remove_##I(std::vector<I>& c, unsigned char j) { c.erase(c.begin() + j); } \
EX void w_spec2_remove_##I(std::vector<I>& c, unsigned char j) { for (size_t k = j; k + 1 < c.size(); ++k) c[k] = c[k + 1]; c.pop_back(); }
M(u64) M(u32)
//@ compile dynamic_remove
void f(SubelementContainer<size_t, 0>& c) { c.removeSubelement(1); }
