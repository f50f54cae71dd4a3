//@ preamble
#include "meshref.h"
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h>
using namespace ref;
using D2 = UnstructuredMesh<2, size_t, double>;
using D3 = UnstructuredMesh<3, unsigned int, float, 6>;
using D4 = UnstructuredMesh<4, size_t, double>;
template <unsigned P> using At = std::integral_constant<unsigned, P>;
template <unsigned P> using Sq = std::integer_sequence<unsigned, P>;
using A = MeshDataContainer<double, 2, 1, 0>;
using B = MeshDataContainer<Vertex<3, double>, 0, 2>;
using C = MeshDataContainer<int, 1, 1, 2, 1>;
using D = MeshDataContainer<std::vector<int>, 1, 2, 0>;
using S = MeshDataContainer<float, 1>;
using T = MeshDataContainer<std::tuple<int, double>, 2, 0>;
using U = MeshDataContainer<std::tuple<double, char, std::vector<int>>, 0, 1, 0>;
using W = MeshDataContainer<std::tuple<char, int, double, float>, 2, 1, 2, 0>;
#define ONE(N) N(A, 0, 2, double) N(A, 1, 1, double) N(A, 2, 0, double) N(B, 0, 0, V3) N(B, 1, 2, V3) \
    N(C, 0, 1, int) N(C, 1, 1, int) N(C, 2, 2, int) N(C, 3, 1, int) N(D, 0, 1, VI) N(D, 1, 2, VI) N(D, 2, 0, VI) N(S, 0, 1, float) \
    N(T, 0, 2, int) N(T, 1, 0, double) N(U, 0, 0, double) N(U, 1, 1, char) N(U, 2, 0, VI) N(W, 0, 2, char) N(W, 1, 1, int) N(W, 2, 2, double) N(W, 3, 0, float)
// position, dimension and type of the array that serves a dimension: the first one declared for it
#define FIRST(N) N(A, 0, 2, double) N(A, 1, 1, double) N(A, 2, 0, double) N(B, 0, 0, V3) N(B, 1, 2, V3) N(C, 0, 1, int) N(C, 2, 2, int) N(D, 0, 1, VI) N(D, 2, 0, VI) \
    N(S, 0, 1, float) N(T, 0, 2, int) N(T, 1, 0, double) N(U, 0, 0, double) N(U, 1, 1, char) N(W, 0, 2, char) N(W, 1, 1, int) N(W, 3, 0, float)
using VI = std::vector<int>;
using V3 = Vertex<3, double>;
template <class C> struct Count;
template <class T, unsigned... d> struct Count<MeshDataContainer<T, d...>> { static constexpr unsigned value = sizeof...(d); };
template <class C> struct SeqOf;
template <class T, unsigned... d> struct SeqOf<MeshDataContainer<T, d...>> { using type = std::integer_sequence<unsigned, d...>; };
template <class C> using Seq = typename SeqOf<C>::type;
template <class X, class Y> struct eq { static_assert(std::is_same<X, Y>::value, ""); static constexpr bool value = true; };
//@ compile types
template <class X, class Y> using bare = std::is_same<std::decay_t<X>, Y>;
#define N(C, p, d, t) \
    static_assert(C::dimensionAt<p>() == d, ""); \
    static_assert(bare<decltype(std::declval<C&>().getDataByPos<p>()), DataContainer<t, d>>::value && bare<decltype(std::declval<const C&>().getDataByPos<p>()), DataContainer<t, d>>::value, ""); \
    static_assert(std::is_same<decltype(std::declval<C&>()[Sq<p>{}]), DataContainer<t, d>&>::value && std::is_same<decltype(std::declval<const C&>()[Sq<p>{}]), const DataContainer<t, d>&>::value, ""); \
    static_assert(std::is_same<C::DataContainerType<p>, DataContainer<t, d>>::value && DataContainer<t, d>::getMappedDimension() == d && std::is_same<DataContainer<t, d>::type, t>::value, ""); \
    static_assert(C::size() == Count<C>::value && p < C::size(), "");
ONE(N)
#undef N
#define N(C, p, d, t) \
    static_assert(C::dimensionIndex<d>() == p, "the first array of the dimension"); \
    static_assert(std::is_same<decltype(std::declval<C&>().getDataByDim<d>()), DataContainer<t, d>&>::value && std::is_same<decltype(std::declval<const C&>().getDataByDim<d>()), const DataContainer<t, d>&>::value, "");
FIRST(N)
#undef N
static_assert(std::is_same<MakeMeshDataContainer_t<double, std::integer_sequence<unsigned, 2, 1, 0>>, A>::value, "");
static_assert(std::is_same<MakeMeshDataContainer_t<std::tuple<int, double>, std::integer_sequence<unsigned, 2, 0>>, T>::value, "");
static_assert(std::is_same<decltype(A(std::declval<D2>(), std::integer_sequence<unsigned, 2, 1, 0>{}, 1.)), A>::value, "");
//@ nocompile missing_dimension
auto* x = &std::declval<A&>().getDataByDim<3>();
//@ nocompile missing_dimension_mixed
auto* x = &std::declval<T&>().getDataByDim<1>();
//@ nocompile missing_position
auto* x = &std::declval<A&>().getDataByPos<3>();
//@ section routing
// every position has its own array; a dimension is served by the first of its arrays
template <unsigned a, unsigned b, class C> bool apart(C& c) {
    const char* x = (const char*)&c.template getDataByPos<a>();
    const char* y = (const char*)&c.template getDataByPos<b>();
    return a == b || x + sizeof(c.template getDataByPos<a>()) <= y || y + sizeof(c.template getDataByPos<b>()) <= x;
}
template <unsigned a, class C, unsigned... b> bool fromAll(C& c, std::integer_sequence<unsigned, b...>) {
    bool r = true;
    for (bool x : {apart<a, b>(c)...}) r = r && x;
    return r;
}
#define N(C, p, d, t) \
    EX bool w_true_own_##C##_##p(C& c) { return fromAll<p>(c, std::make_integer_sequence<unsigned, Count<C>::value>{}); } \
    EX bool w_true_same_##C##_##p(C& c) { const C& k = c; return &k.getDataByPos<p>() == &c.getDataByPos<p>() && &c[Sq<p>{}] == &c.getDataByPos<p>() && &k[Sq<p>{}] == &c.getDataByPos<p>(); }
ONE(N)
#undef N
#define N(C, p, d, t) EX bool w_true_dim_##C##_##d(C& c) { const C& k = c; return &c.getDataByDim<d>() == &c.getDataByPos<p>() && &k.getDataByDim<d>() == &c.getDataByPos<p>(); }
FIRST(N)
#undef N
//@ section element
// a container indexed by an element or an element index gives the entry of that index in the array of its dimension
#define E(C, p, d, t, M) \
    EX bool w_true_index_##C##_##d##_##M(C& c, const M::ElementType<d>& e) { const C& k = c; return &c[e] == c.getDataByPos<p>().data() + e.getIndex() && &k[e] == &c[e]; } \
    EX bool w_true_byindex_##C##_##d##_##M(C& c, const ElementIndex<d, info<M>::index>& e) { const C& k = c; return &c[e] == c.getDataByPos<p>().data() + e.index && &k[e] == &c[e]; } \
    EX const void* w_impl_at_##C##_##d##_##M(C& c, const M::ElementType<d>& e) { return &c.at(e); } \
    EX const void* w_spec_at_##C##_##d##_##M(C& c, const M::ElementType<d>& e) { return &c.getDataByPos<p>().at(e.getIndex()); } \
    EX const void* w_impl_cat_##C##_##d##_##M(const C& c, const M::ElementType<d>& e) { return &c.at(e); } \
    EX const void* w_spec_cat_##C##_##d##_##M(const C& c, const M::ElementType<d>& e) { return &c.getDataByPos<p>().at(e.getIndex()); }
#define N(C, p, d, t) E(C, p, d, t, D2) E(C, p, d, t, D3)
FIRST(N)
#undef N
//@ section checked range std=string
// the checked access refuses an element the array has no entry for
#define E(C, p, d, t, M) \
    EX void w_throw_at_##C##_##d##_##M(C& c, const M::ElementType<d>& e) { if (e.getIndex() < c.getDataByPos<p>().size()) __builtin_unreachable(); sink(&c.at(e)); } \
    EX void w_throw_cat_##C##_##d##_##M(const C& c, const M::ElementType<d>& e) { if (e.getIndex() < c.getDataByPos<p>().size()) __builtin_unreachable(); sink(&c.at(e)); }
extern "C" void sink(const void*);
#define N(C, p, d, t) E(C, p, d, t, D2) E(C, p, d, t, D3)
FIRST(N)
#undef N
//@ section sizes std=vector
// every array gets the number of elements of its own dimension
template <class M, class C, unsigned p, bool end = p == Count<C>::value> struct Fill {
    static void size(const M& m, C& c) { c.template getDataByPos<p>().resize(m.template getElements<C::template dimensionAt<p>()>().size()); Fill<M, C, p + 1>::size(m, c); }
    template <class X> static void size(const M& m, C& c, const X& x) { c.template getDataByPos<p>().resize(m.template getElements<C::template dimensionAt<p>()>().size(), x); Fill<M, C, p + 1>::size(m, c, x); }
    template <class X, class... Y> static void sizes(const M& m, C& c, const X& x, const Y&... y) { c.template getDataByPos<p>().resize(m.template getElements<C::template dimensionAt<p>()>().size(), x); Fill<M, C, p + 1>::sizes(m, c, y...); }
    template <class K> static void like(const K& k, C& c) { c.template getDataByPos<p>().resize(k.template getDataByDim<C::template dimensionAt<p>()>().size()); Fill<M, C, p + 1>::like(k, c); }
    template <class K, class X> static void like(const K& k, C& c, const X& x) { c.template getDataByPos<p>().resize(k.template getDataByDim<C::template dimensionAt<p>()>().size(), x); Fill<M, C, p + 1>::like(k, c, x); }
    template <class K, class X, class... Y> static void likes(const K& k, C& c, const X& x, const Y&... y) { c.template getDataByPos<p>().resize(k.template getDataByDim<C::template dimensionAt<p>()>().size(), x); Fill<M, C, p + 1>::likes(k, c, y...); }
};
template <class M, class C, unsigned p> struct Fill<M, C, p, true> {
    template <class... X> static void size(X&&...) {}
    template <class... X> static void sizes(X&&...) {}
    template <class... X> static void like(X&&...) {}
    template <class... X> static void likes(X&&...) {}
};
#define N(C, M) \
    EX void w_impl_make_##C##_##M(const M& R m, void* R o) { new (o) C(m); } \
    EX void w_spec_make_##C##_##M(const M& R m, void* R o) { Fill<M, C, 0>::size(m, *new (o) C()); } \
    EX void w_impl_alloc_##C##_##M(const M& R m, C& R c) { c.allocateData(m); } \
    EX void w_spec_alloc_##C##_##M(const M& R m, C& R c) { Fill<M, C, 0>::size(m, c); }
#define NN(C) N(C, D2) N(C, D3)
NN(A) NN(B) NN(C) NN(D) NN(S) NN(T) NN(U) NN(W)
#undef N
#define N(C, t, M) \
    EX void w_impl_init_##C##_##M(const M& R m, const t& R x, void* R o) { new (o) C(m, x); } \
    EX void w_spec_init_##C##_##M(const M& R m, const t& R x, void* R o) { Fill<M, C, 0>::size(m, *new (o) C(), x); } \
    EX void w_impl_allocinit_##C##_##M(const M& R m, const t& R x, C& R c) { c.allocateData(m, x); } \
    EX void w_spec_allocinit_##C##_##M(const M& R m, const t& R x, C& R c) { Fill<M, C, 0>::size(m, c, x); } \
    EX void w_impl_deduce_##C##_##M(const M& R m, const t& R x, void* R o) { new (o) C(m, Seq<C>{}, t(x)); } \
    EX void w_spec_deduce_##C##_##M(const M& R m, const t& R x, void* R o) { t y(x); Fill<M, C, 0>::size(m, *new (o) C()); } \
    EX void w_impl_deduceinit_##C##_##M(const M& R m, const t& R x, void* R o) { new (o) C(m, x, Seq<C>{}, t(x)); } \
    EX void w_spec_deduceinit_##C##_##M(const M& R m, const t& R x, void* R o) { t y(x); Fill<M, C, 0>::size(m, *new (o) C(), x); }
#undef NN
#define NN(C, t) N(C, t, D2) N(C, t, D3)
NN(A, double) NN(B, V3) NN(C, int) NN(D, VI) NN(S, float)
#undef N
//@ section mixed std=vector
template <class M, class C, unsigned p, bool end = p == Count<C>::value> struct Fill {
    template <class X, class... Y> static void sizes(const M& m, C& c, const X& x, const Y&... y) { c.template getDataByPos<p>().resize(m.template getElements<C::template dimensionAt<p>()>().size(), x); Fill<M, C, p + 1>::sizes(m, c, y...); }
    template <class K, class X, class... Y> static void likes(const K& k, C& c, const X& x, const Y&... y) { c.template getDataByPos<p>().resize(k.template getDataByDim<C::template dimensionAt<p>()>().size(), x); Fill<M, C, p + 1>::likes(k, c, y...); }
};
template <class M, class C, unsigned p> struct Fill<M, C, p, true> {
    template <class... X> static void sizes(X&&...) {}
    template <class... X> static void likes(X&&...) {}
};
#define N(M) \
    EX void w_impl_inits_T_##M(const M& R m, const int& R x, const double& R y, void* R o) { new (o) T(m, x, y); } \
    EX void w_spec_inits_T_##M(const M& R m, const int& R x, const double& R y, void* R o) { Fill<M, T, 0>::sizes(m, *new (o) T(), x, y); } \
    EX void w_impl_inits_U_##M(const M& R m, const double& R x, const char& R y, const VI& R z, void* R o) { new (o) U(m, x, y, z); } \
    EX void w_spec_inits_U_##M(const M& R m, const double& R x, const char& R y, const VI& R z, void* R o) { Fill<M, U, 0>::sizes(m, *new (o) U(), x, y, z); } \
    EX void w_impl_inits_W_##M(const M& R m, const char& R x, const int& R y, const double& R z, const float& R w, void* R o) { new (o) W(m, x, y, z, w); } \
    EX void w_spec_inits_W_##M(const M& R m, const char& R x, const int& R y, const double& R z, const float& R w, void* R o) { Fill<M, W, 0>::sizes(m, *new (o) W(), x, y, z, w); } \
    EX void w_impl_allocs_W_##M(const M& R m, const char& R x, const int& R y, const double& R z, const float& R w, W& R c) { c.allocateData(m, x, y, z, w); } \
    EX void w_spec_allocs_W_##M(const M& R m, const char& R x, const int& R y, const double& R z, const float& R w, W& R c) { Fill<M, W, 0>::sizes(m, c, x, y, z, w); }
N(D2) N(D3)
#undef N
EX void w_impl_likes_T(const T& R k, const int& R x, const double& R y, T& R c) { c.allocateData(k, x, y); }
EX void w_spec_likes_T(const T& R k, const int& R x, const double& R y, T& R c) { Fill<D2, T, 0>::likes(k, c, x, y); }
EX void w_impl_likes_W(const W& R k, const char& R x, const int& R y, const double& R z, const float& R w, W& R c) { c.allocateData(k, x, y, z, w); }
EX void w_spec_likes_W(const W& R k, const char& R x, const int& R y, const double& R z, const float& R w, W& R c) { Fill<D2, W, 0>::likes(k, c, x, y, z, w); }
//@ section like std=vector
template <class C, unsigned p, bool end = p == Count<C>::value> struct Fill {
    template <class K> static void like(const K& k, C& c) { c.template getDataByPos<p>().resize(k.template getDataByDim<C::template dimensionAt<p>()>().size()); Fill<C, p + 1>::like(k, c); }
    template <class K, class X> static void like(const K& k, C& c, const X& x) { c.template getDataByPos<p>().resize(k.template getDataByDim<C::template dimensionAt<p>()>().size(), x); Fill<C, p + 1>::like(k, c, x); }
};
template <class C, unsigned p> struct Fill<C, p, true> {
    template <class... X> static void like(X&&...) {}
};
#define N(C, K) \
    EX void w_impl_like_##C##_##K(const K& R k, C& R c) { c.allocateData(k); } \
    EX void w_spec_like_##C##_##K(const K& R k, C& R c) { Fill<C, 0>::like(k, c); }
N(B, A) N(C, A) N(D, A) N(A, D) N(C, W) N(S, U) N(T, T) N(U, U) N(W, W)
#undef N
#define N(C, K, t) \
    EX void w_impl_likeinit_##C##_##K(const K& R k, const t& R x, C& R c) { c.allocateData(k, x); } \
    EX void w_spec_likeinit_##C##_##K(const K& R k, const t& R x, C& R c) { Fill<C, 0>::like(k, c, x); }
N(B, A, V3) N(C, A, int) N(D, A, VI) N(A, D, double) N(C, W, int)
//@ section copies std=vector
template <class C, unsigned p = 0, bool end = p == Count<C>::value> struct Each {
    static void copy(C& a, const C& b) { a.template getDataByPos<p>() = b.template getDataByPos<p>(); Each<C, p + 1>::copy(a, b); }
    static void move(C& a, C& b) { a.template getDataByPos<p>() = std::move(b.template getDataByPos<p>()); Each<C, p + 1>::move(a, b); }
};
template <class C, unsigned p> struct Each<C, p, true> {
    static void copy(C&, const C&) {}
    static void move(C&, C&) {}
};
#define N(C) \
    EX void w_impl_copy_##C(C& R a, const C& R b) { a = b; } \
    EX void w_spec_copy_##C(C& R a, const C& R b) { Each<C>::copy(a, b); } \
    EX void w_impl_move_##C(C& R a, C& R b) { a = std::move(b); } \
    EX void w_spec_move_##C(C& R a, C& R b) { Each<C>::move(a, b); }
N(A) N(B) N(C) N(D) N(S) N(T) N(U) N(W)
#undef N
//@ section reflection
EX bool w_true_attr_A(A& a, const Traits<A>& t) { const A& k = a; return &t.getAttr<0>(a) == &a.getDataByPos<0>() && &t.getAttr<1>(a) == &a.getDataByPos<1>() && &t.getAttr<2>(a) == &a.getDataByPos<2>() && &t.getValue<1>(k) == &a.getDataByPos<1>(); }
EX bool w_true_attr_W(W& a, const Traits<W>& t) { const W& k = a; return &t.getAttr<0>(a) == &a.getDataByPos<0>() && &t.getAttr<3>(a) == &a.getDataByPos<3>() && &t.getValue<2>(k) == &a.getDataByPos<2>(); }
using X = MeshDataContainer<int, 0, 3, 10, 105, 999, 10>;
template <unsigned i> bool named(const char* s, size_t n) {
    Traits<X> t;
    for (size_t k = 0; k <= n; ++k) if (t.getName<i>()[k] != s[k]) return false;
    return true;
}
EX bool w_true_name0() { return named<0>("dim 0", 5); }
EX bool w_true_name1() { return named<1>("dim 3", 5); }
EX bool w_true_name2() { return named<2>("dim 10", 6); }
EX bool w_true_name3() { return named<3>("dim 105", 7); }
EX bool w_true_name4() { return named<4>("dim 999", 7); }
EX bool w_true_name5() { return named<5>("dim 10", 6); }
