//@ preamble
#define UNDEBUG
#include "meshref.h"
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using D3 = UnstructuredMesh<3, size_t, double, 6>;
using V3 = UnstructuredMesh<3, unsigned int, float>;
template <unsigned S, class M> using Colors = MeshDataContainer<unsigned int, S>;
using Marks = std::valarray<bool>;
// twice as many colors for everybody, the marks so far kept
template <int W, class T> void widen(T& table, unsigned int n) {
    for (Marks& m : table) {
        Marks w(false, n);
        if (W & 1) std::copy(std::begin(m), std::end(m), std::begin(w));
        else for (size_t i = 0; i < m.size(); ++i) w[i] = m[i];
        if (W & 2) m = std::move(w);
        else m.swap(w);
    }
}
// the first color nobody around has; one more color when all are taken
template <int W> struct Step {
    template <class T> static unsigned int pick(Marks& free, T& table, unsigned int& reserve) {
        unsigned int c = 0;
        while (!free[c]) {
            ++c;
            if (c == free.size()) {
                reserve *= 2;
                widen<W>(table, reserve);
                break;
            }
        }
        return c;
    }
};
template <int W> struct Scan {
    template <class T> static unsigned int pick(Marks& free, T& table, unsigned int& reserve) {
        unsigned int c = 0;
        while (c < free.size() && !free[c]) ++c;
        if (c == free.size()) {
            reserve *= 2;
            widen<W>(table, reserve);
        }
        return c;
    }
};
// over the connecting elements found by the connection table
template <class P, unsigned S, unsigned C, class M> Colors<S, M> greedyUp(const M& m) {
    using I = typename info<M>::index;
    Colors<S, M> res(m);
    unsigned int reserve = 16;
    MeshDataContainer<Marks, C> taken(m, Marks(false, reserve));
    auto con = MeshConnections<S, C>::connections(m);
    for (I e = 0; e < m.template getElements<S>().size(); ++e) {
        Marks free(true, reserve);
        for (I c : con.template getDataByPos<0>()[e]) free &= !taken.template getDataByPos<0>()[c];
        unsigned int color = P::pick(free, taken.template getDataByPos<0>(), reserve);
        res.template getDataByPos<0>()[e] = color;
        for (I c : con.template getDataByPos<0>()[e]) taken.template getDataByPos<0>()[c][color] = true;
    }
    return res;
}
// over the connecting elements of the element itself
template <class P, unsigned S, unsigned C, class M> Colors<S, M> greedyDown(const M& m) {
    using I = typename info<M>::index;
    Colors<S, M> res(m);
    unsigned int reserve = 16;
    MeshDataContainer<Marks, C> taken(m, Marks(false, reserve));
    for (I e = 0; e < m.template getElements<S>().size(); ++e) {
        Marks free(true, reserve);
        MeshApply<S, C>::apply(e, m, [&](I, I c) { free &= !taken.template getDataByPos<0>()[c]; });
        unsigned int color = P::pick(free, taken.template getDataByPos<0>(), reserve);
        res.template getDataByPos<0>()[e] = color;
        MeshApply<S, C>::apply(e, m, [&](I, I c) { taken.template getDataByPos<0>()[c][color] = true; });
    }
    return res;
}
// every element in turn draws from the colors nobody around has, or keeps its own
template <bool COUNT, unsigned S, unsigned C, class M> Colors<S, M> shuffled(const M& m, unsigned int seed) {
    using I = typename info<M>::index;
    Colors<S, M> res = MeshColoring<S, C>::color(m);
    auto& color = res.template getDataByPos<0>();
    if (color.empty()) return res;
    unsigned int reserve = *std::max_element(color.begin(), color.end()) + 1;
    std::mt19937 gen(seed);
    MeshDataContainer<Marks, C> table(m, Marks(false, reserve));
    auto& taken = table.template getDataByPos<0>();
    auto con = MeshConnections<S, C>::connections(m);
    auto& around = con.template getDataByPos<0>();
    for (I e = 0; e < m.template getElements<S>().size(); ++e)
        for (I c : around[e]) taken[c][color[e]] = true;
    for (I e = 0; e < m.template getElements<S>().size(); ++e) {
        Marks free(true, reserve);
        for (I c : around[e]) free &= !taken[c];
        unsigned int n = 0;
        if (COUNT) n = std::count(std::begin(free), std::end(free), true);
        else for (bool f : free) n += f;
        if (n == 0) continue;
        std::uniform_int_distribution<unsigned int> dist(0, n);
        unsigned int k = dist(gen), pick = 0;
        if (k == n) continue;
        while (k != 0 || !free[pick]) {
            if (free[pick]) --k;
            ++pick;
        }
        for (I c : around[e]) {
            taken[c][color[e]] = false;
            taken[c][pick] = true;
        }
        color[e] = pick;
    }
    return res;
}
#define SR(w, c, M, S, C, f) EX void w##c##_##M##_##S##_##C(const M& m, unsigned int seed, void* R o) { new (o) Colors<S, M>(f); }
#define RN(M, S, C) SR(w_impl_, random, M, S, C, (MeshColoring<S, C, METHOD_RANDOM>::color(m, seed))) SR(w_spec_, random, M, S, C, (shuffled<false, S, C>(m, seed))) SR(w_spec2_, random, M, S, C, (shuffled<true, S, C>(m, seed)))
#define SP(w, c, M, S, C, f) EX void w##c##_##M##_##S##_##C(const M& m, void* R o) { new (o) Colors<S, M>(f); }
#define UP(M, S, C) SP(w_impl_, greedy, M, S, C, (MeshColoring<S, C>::color(m))) SP(w_spec_, greedy, M, S, C, (greedyUp<Step<0>, S, C>(m))) SP(w_spec2_, greedy, M, S, C, (greedyUp<Scan<0>, S, C>(m))) SP(w_spec3_, greedy, M, S, C, (greedyUp<Step<1>, S, C>(m))) SP(w_spec4_, greedy, M, S, C, (greedyUp<Scan<1>, S, C>(m))) SP(w_spec5_, greedy, M, S, C, (greedyUp<Step<2>, S, C>(m))) SP(w_spec6_, greedy, M, S, C, (greedyUp<Scan<2>, S, C>(m))) SP(w_spec7_, greedy, M, S, C, (greedyUp<Step<3>, S, C>(m))) SP(w_spec8_, greedy, M, S, C, (greedyUp<Scan<3>, S, C>(m)))
#define DN(M, S, C) SP(w_impl_, greedy, M, S, C, (MeshColoring<S, C>::color(m))) SP(w_spec_, greedy, M, S, C, (greedyDown<Step<0>, S, C>(m))) SP(w_spec2_, greedy, M, S, C, (greedyDown<Scan<0>, S, C>(m))) SP(w_spec3_, greedy, M, S, C, (greedyDown<Step<1>, S, C>(m))) SP(w_spec4_, greedy, M, S, C, (greedyDown<Scan<1>, S, C>(m))) SP(w_spec5_, greedy, M, S, C, (greedyDown<Step<2>, S, C>(m))) SP(w_spec6_, greedy, M, S, C, (greedyDown<Scan<2>, S, C>(m))) SP(w_spec7_, greedy, M, S, C, (greedyDown<Step<3>, S, C>(m))) SP(w_spec8_, greedy, M, S, C, (greedyDown<Scan<3>, S, C>(m)))
//@ section greedy2 std=vector,map,valarray argmem=@std::copy(<.*>)?$
UP(D2, 0, 1) UP(D2, 0, 2) UP(D2, 1, 2) DN(D2, 1, 0) DN(D2, 2, 0) DN(D2, 2, 1)
//@ section greedy3 std=vector,map,valarray argmem=@std::copy(<.*>)?$
UP(D3, 0, 1) UP(D3, 0, 2) UP(D3, 0, 3) UP(D3, 1, 2) UP(D3, 1, 3) UP(D3, 2, 3)
DN(D3, 1, 0) DN(D3, 2, 0) DN(D3, 2, 1) DN(D3, 3, 0) DN(D3, 3, 1) DN(D3, 3, 2)
UP(V3, 2, 3) DN(V3, 3, 0) DN(V3, 3, 2)
//@ section random2 std=vector,map,valarray,random argmem=@MeshConnections<.*>::connections(<.*>)?$;;@std::copy(<.*>)?$
RN(D2, 0, 1) RN(D2, 0, 2) RN(D2, 1, 2) RN(D2, 1, 0) RN(D2, 2, 0) RN(D2, 2, 1)
//@ section random3 std=vector,map,valarray,random argmem=@MeshConnections<.*>::connections(<.*>)?$;;@std::copy(<.*>)?$
RN(D3, 0, 3) RN(D3, 1, 3) RN(D3, 2, 3) RN(D3, 2, 0) RN(D3, 3, 0) RN(D3, 3, 1) RN(D3, 3, 2)
//@ section members std=vector,map,valarray,random argmem=@MeshConnections<.*>::connections(<.*>)?$;;@std::copy(<.*>)?$
#define MB(M, S, C) \
    EX void w_impl_member_##M##_##S##_##C(const M& m, void* R o) { new (o) Colors<S, M>(m.template coloring<S, C>()); } \
    EX void w_spec_member_##M##_##S##_##C(const M& m, void* R o) { new (o) Colors<S, M>(MeshColoring<S, C>::color(m)); } \
    EX void w_impl_randomMember_##M##_##S##_##C(const M& m, unsigned int seed, void* R o) { new (o) Colors<S, M>(m.template coloring<S, C, METHOD_RANDOM>(seed)); } \
    EX void w_spec_randomMember_##M##_##S##_##C(const M& m, unsigned int seed, void* R o) { new (o) Colors<S, M>(MeshColoring<S, C, METHOD_RANDOM>::color(m, seed)); }
MB(D2, 2, 0) MB(D2, 0, 2) MB(D3, 3, 2) MB(D3, 2, 3)
