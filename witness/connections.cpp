//@ preamble
#include "meshref.h"
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using F2 = UnstructuredMesh<2, unsigned int, float>;
using D3 = UnstructuredMesh<3, size_t, double, 6>;
using V3 = UnstructuredMesh<3, size_t, double>;
using D4 = UnstructuredMesh<4, size_t, double, 6, 6>;
#define N4_(p, M, S, T) p##M##_##S##_##T
#define N4(p, M, S, T) N4_(p, M, S, T)
template <unsigned S, unsigned T, class M> using Table = MeshDataContainer<std::vector<ElementIndex<T, typename info<M>::index>>, S>;
// ways to copy an ordered set into an empty list
struct Ins { template <class V, class C> static void put(V& v, const C& s) { v.insert(v.begin(), s.begin(), s.end()); } };
// upwards: one traversal, every pair recorded at its start
template <class P, unsigned S, unsigned T, class M> Table<S, T, M> up(const M& m) {
    using I = typename info<M>::index;
    MeshDataContainer<std::set<I>, S> tmp(m);
    MeshApply<S, T>::apply(m, [&tmp](I a, I b) { tmp.template getDataByPos<0>()[a].insert(b); });
    Table<S, T, M> res(m);
    for (I i = 0; i < res.template getDataByPos<0>().size(); ++i) P::put(res.template getDataByPos<0>()[i], tmp.template getDataByPos<0>()[i]);
    return res;
}
// downwards: one element at a time
template <class P, unsigned S, unsigned T, class M> Table<S, T, M> down(const M& m) {
    using I = typename info<M>::index;
    Table<S, T, M> res(m);
    std::set<I> tmp;
    for (I i = 0; i < m.template getElements<S>().size(); ++i) {
        MeshApply<S, T>::apply(i, m, [&tmp](I, I b) { tmp.insert(b); });
        P::put(res.template getDataByPos<0>()[i], tmp);
        tmp.clear();
    }
    return res;
}
// other ways of writing the same loops
struct Asg { template <class V, class C> static void put(V& v, const C& s) { v.assign(s.begin(), s.end()); } };
struct Psh { template <class V, class C> static void put(V& v, const C& s) { for (auto& x : s) v.push_back(x); } };
// in the order of the first visit: every new element remembers its position
struct Always { template <class C, class I> static void put(C& t, I b) { I n = t.size(); t.insert({b, n}); } };
struct Unseen { template <class C, class I> static void put(C& t, I b) { if (t.find(b) == t.end()) { I n = t.size(); t.insert({b, n}); } } };
struct Count { template <class C, class I> static void put(C& t, I b) { if (t.count(b) == 0) { I n = t.size(); t.insert({b, n}); } } };
template <class P, unsigned S, unsigned T, class M> Table<S, T, M> first(const M& m) {
    using I = typename info<M>::index;
    MeshDataContainer<std::map<I, I>, S> tmp(m);
    MeshApply<S, T>::apply(m, [&tmp](I a, I b) {
        P::put(tmp.template getDataByPos<0>()[a], b);
    });
    Table<S, T, M> res(m);
    for (I i = 0; i < m.template getElements<S>().size(); ++i) {
        auto& r = res.template getDataByPos<0>()[i];
        auto& t = tmp.template getDataByPos<0>()[i];
        r.resize(t.size());
        for (auto& e : t) r[e.second] = e.first;
    }
    return res;
}
// elements reached through the connecting elements, without the element itself
template <class P, bool ERASE, unsigned S, unsigned C, unsigned T, class M> Table<S, T, M> near(const M& m) {
    using I = typename info<M>::index;
    Table<S, T, M> res(m);
    auto a = MeshConnections<S, C>::connections(m);
    auto b = MeshConnections<C, T>::connections(m);
    for (I i = 0; i < m.template getElements<S>().size(); ++i) {
        std::set<I> tmp;
        for (auto& c : a.template getDataByPos<0>()[i])
            for (auto& n : b.template getDataByPos<0>()[c])
                if (ERASE || S != T || i != n) tmp.insert(n);
        if (ERASE && S == T) tmp.erase(i);
        P::put(res.template getDataByPos<0>()[i], tmp);
    }
    return res;
}
template <class P, unsigned S, unsigned C, unsigned T, class M> Table<S, T, M> nearFirst(const M& m) {
    using I = typename info<M>::index;
    Table<S, T, M> res(m);
    auto a = MeshConnections<S, C, Order::ORDER_ORIGINAL>::connections(m);
    auto b = MeshConnections<C, T, Order::ORDER_ORIGINAL>::connections(m);
    for (I i = 0; i < m.template getElements<S>().size(); ++i) {
        std::map<I, I> t;
        for (auto& c : a.template getDataByPos<0>()[i])
            for (auto& n : b.template getDataByPos<0>()[c])
                if (S != T || i != n) P::put(t, I(n));
        auto& r = res.template getDataByPos<0>()[i];
        r.resize(t.size());
        for (auto& e : t) r[e.second] = e.first;
    }
    return res;
}
#define L1 EX void N4
#define SP(w, c, M, S, T, f) EX void N4(w##c##_, M, S, T)(const M& m, void* R o) { new (o) Table<S, T, M>(f); }
#define U(M, S, T) SP(w_impl_, con, M, S, T, (MeshConnections<S, T>::connections(m))) \
    SP(w_spec_, con, M, S, T, (up<Ins, S, T>(m))) SP(w_spec2_, con, M, S, T, (up<Asg, S, T>(m))) SP(w_spec3_, con, M, S, T, (up<Psh, S, T>(m)))
#define D(M, S, T) SP(w_impl_, con, M, S, T, (MeshConnections<S, T>::connections(m))) \
    SP(w_spec_, con, M, S, T, (down<Ins, S, T>(m))) SP(w_spec2_, con, M, S, T, (down<Asg, S, T>(m))) SP(w_spec3_, con, M, S, T, (down<Psh, S, T>(m)))
#define F(M, S, T) SP(w_impl_, fst, M, S, T, (MeshConnections<S, T, Order::ORDER_ORIGINAL>::connections(m))) SP(w_spec_, fst, M, S, T, (first<Always, S, T>(m))) SP(w_spec2_, fst, M, S, T, (first<Unseen, S, T>(m))) SP(w_spec3_, fst, M, S, T, (first<Count, S, T>(m)))
#define B5(p, M, S, C, T) p##M##_##S##_##C##_##T
#define SQ(w, M, S, C, T, f) EX void B5(w, M, S, C, T)(const M& m, void* R o) { new (o) Table<S, T, M>(f); }
#define B(M, S, C, T) SQ(w_impl_near_, M, S, C, T, (MeshNeighborhood<S, C, T>::neighbors(m))) \
    SQ(w_spec_near_, M, S, C, T, (near<Ins, false, S, C, T>(m))) SQ(w_spec2_near_, M, S, C, T, (near<Asg, false, S, C, T>(m))) SQ(w_spec3_near_, M, S, C, T, (near<Psh, false, S, C, T>(m))) SQ(w_spec4_near_, M, S, C, T, (near<Ins, true, S, C, T>(m))) SQ(w_spec5_near_, M, S, C, T, (near<Asg, true, S, C, T>(m))) \
    SQ(w_impl_nearF_, M, S, C, T, (MeshNeighborhood<S, C, T, Order::ORDER_ORIGINAL>::neighbors(m))) SQ(w_spec_nearF_, M, S, C, T, (nearFirst<Always, S, C, T>(m))) SQ(w_spec2_nearF_, M, S, C, T, (nearFirst<Unseen, S, C, T>(m)))
#define MEM(M, S, C, T) \
    SQ(w_impl_mem_, M, S, C, T, (m.template neighborhood<S, C, T>())) SQ(w_spec_mem_, M, S, C, T, (MeshNeighborhood<S, C, T>::neighbors(m))) \
    SQ(w_impl_memF_, M, S, C, T, (m.template neighborhood<S, C, T, Order::ORDER_ORIGINAL>())) SQ(w_spec_memF_, M, S, C, T, (MeshNeighborhood<S, C, T, Order::ORDER_ORIGINAL>::neighbors(m))) \
    SQ(w_impl_memC_, M, S, C, T, (m.template connections<S, T>())) SQ(w_spec_memC_, M, S, C, T, (MeshConnections<S, T>::connections(m))) \
    SQ(w_impl_memCF_, M, S, C, T, (m.template connections<S, T, Order::ORDER_ORIGINAL>())) SQ(w_spec_memCF_, M, S, C, T, (MeshConnections<S, T, Order::ORDER_ORIGINAL>::connections(m)))
//@ section ascending2 std=vector,map
U(D2, 0, 1) U(D2, 0, 2) U(D2, 1, 2) D(D2, 1, 0) D(D2, 2, 0) D(D2, 2, 1) U(F2, 0, 2) D(F2, 2, 0)
//@ section ascending3 std=vector,map
U(V3, 0, 1) U(V3, 0, 2) U(V3, 0, 3) U(V3, 1, 2) U(V3, 1, 3) U(V3, 2, 3)
D(D3, 1, 0) D(D3, 2, 0) D(D3, 3, 0) D(D3, 2, 1) D(D3, 3, 1) D(D3, 3, 2)
//@ section ascending4 std=vector,map
U(D4, 0, 4) U(D4, 1, 3) U(D4, 2, 4) U(D4, 3, 4) D(D4, 4, 0) D(D4, 3, 1) D(D4, 4, 2) D(D4, 4, 3)
//@ section original std=vector,map
F(D2, 0, 1) F(D2, 0, 2) F(D2, 1, 2) F(D2, 1, 0) F(D2, 2, 0) F(D2, 2, 1)
//@ section original3 std=vector,map
F(V3, 0, 2) F(D3, 1, 3) F(D3, 2, 3) F(D3, 2, 0) F(D3, 3, 1) F(V3, 3, 2)
//@ section neighbors std=vector,map
B(D2, 2, 1, 2) B(D2, 2, 0, 2) B(D2, 0, 1, 0) B(D2, 1, 2, 0) B(D2, 1, 0, 1)
//@ section neighbors3 std=vector,map
B(D3, 3, 2, 3) B(V3, 0, 3, 0) B(D3, 2, 1, 3)
//@ section members std=vector,map
MEM(D2, 2, 1, 2) MEM(D2, 0, 1, 2)
//@ section members3 std=vector,map
MEM(D3, 3, 2, 3) MEM(D3, 2, 3, 1)
