//@ preamble
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/CustomTypeTraits.h>
#include <utility>
#include <functional>
#define EX extern "C"
#define R __restrict
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
// a class with every kind of member access; f ... p are reached only through their accessors
struct A {
    int a; double b; char c; long d[2];
    int e, f, g, h, i, j, k;
    double l;
    // value getter + setter, constant getter
    int getE() const { return e; }
    void setE(const int& x) { e = x; }
    // value getter which is not constant, setter by value
    int getF() { return f; }
    void setF(int x) { f = x; }
    // constant getter by reference + reference for writing
    const int& getG() const { return g; }
    int& refG() { return g; }
    double getL() const { return l; }
    void setL(const double& x) { l = x; }
    double& refL() { return l; }
};
// free functions
inline int getH(const A& o) { return o.h; }
inline void setH(A& o, const int& x) { o.h = x; }
inline int getI(A& o) { return o.i; }
inline int& refI(A& o) { return o.i; }
// functors
struct GetJ { int operator()(const A& o) const { return o.j; } };
struct SetJ { void operator()(A& o, const int& x) const { o.j = x; } };
struct RefK { int& operator()(A& o) const { return o.k; } };
struct GetK { int operator()(const A& o) const { return o.k; } };
inline auto traits() {
    return makeTraits<A>("a", &A::a, "b", &A::b, "c", &A::c,
        "e", std::make_pair(&A::getE, &A::setE), "f", std::make_pair(&A::getF, &A::setF), "g", std::make_pair(&A::getG, &A::refG),
        "h", std::make_pair(&getH, &setH), "i", std::make_pair(&getI, &refI), "j", std::make_pair(GetJ(), SetJ()), "k", std::make_pair(GetK(), RefK()),
        "l", std::make_pair(&A::getL, &A::refL), "m", std::make_pair(&getH, SetJ()), "n", std::make_pair(&A::getE, &setH));
}
using T = decltype(traits());
//  M(index, member written, type, constant getter, direct)   getter of m reads h, setter writes j; n reads e, writes h
#define ALL(M) CONSTGET(M) M(4, f, f, int) M(7, i, i, int)
#define CONSTGET(M) M(0, a, a, int) M(1, b, b, double) M(2, c, c, char) M(3, e, e, int) M(5, g, g, int) M(6, h, h, int) M(8, j, j, int) M(9, k, k, int) M(10, l, l, double) M(11, h, j, int) M(12, e, h, int)
#define DIRECT(M) M(0, a, a, int) M(1, b, b, double) M(2, c, c, char) M(5, g, g, int) M(7, i, i, int) M(9, k, k, int) M(10, l, l, double)
//@ section read
#define M(I, r, w, V) \
EX V w_impl_ref_##I(A& o) { return traits().getValue<I>(o); } \
EX V w_spec_ref_##I(A& o) { return o.r; } \
EX V w_impl_ptr_##I(A* o) { return traits().getValue<I>(o); } \
EX V w_spec_ptr_##I(A* o) { return o->r; } \
EX V w_impl_mref_##I(A& o) { return traits().getReference<I>().getValue(o); } \
EX V w_spec_mref_##I(A& o) { return o.r; } \
EX V w_impl_mptr_##I(A* o) { return traits().getReference<I>().getValue(o); } \
EX V w_spec_mptr_##I(A* o) { return o->r; } \
static_assert(std::is_same<T::type<I>, V>::value, "type of the member");
ALL(M)
//@ section read_const
#define M(I, r, w, V) \
EX V w_impl_cref_##I(const A& o) { return traits().getValue<I>(o); } \
EX V w_spec_cref_##I(const A& o) { return o.r; } \
EX V w_impl_cptr_##I(const A* o) { return traits().getValue<I>(o); } \
EX V w_spec_cptr_##I(const A* o) { return o->r; } \
EX V w_impl_cmref_##I(const A& o) { return traits().getReference<I>().getValue(o); } \
EX V w_spec_cmref_##I(const A& o) { return o.r; } \
EX V w_impl_cmptr_##I(const A* o) { return traits().getReference<I>().getValue(o); } \
EX V w_spec_cmptr_##I(const A* o) { return o->r; } \
static_assert(HasConstGetAccess<T::memRefType<I>>::value, "constant access");
CONSTGET(M)
static_assert(!HasConstGetAccess<T::memRefType<4>>::value && !HasConstGetAccess<T::memRefType<7>>::value, "no constant access");
//@ section write
#define M(I, r, w, V) \
EX void w_impl_ref_##I(A& R o, const V& R x) { traits().setValue<I>(o, x); } \
EX void w_spec_ref_##I(A& R o, const V& R x) { o.w = x; } \
EX void w_impl_ptr_##I(A* R o, const V& R x) { traits().setValue<I>(o, x); } \
EX void w_spec_ptr_##I(A* R o, const V& R x) { o->w = x; } \
EX void w_impl_mref_##I(A& R o, const V& R x) { traits().getReference<I>().setValue(o, x); } \
EX void w_spec_mref_##I(A& R o, const V& R x) { o.w = x; } \
EX void w_impl_mptr_##I(A* R o, const V& R x) { traits().getReference<I>().setValue(o, x); } \
EX void w_spec_mptr_##I(A* R o, const V& R x) { o->w = x; }
ALL(M)
//@ section attribute
#define M(I, r, w, V) \
EX V* w_impl_ref_##I(A& o) { return &traits().getAttr<I>(o); } \
EX V* w_spec_ref_##I(A& o) { return &o.w; } \
EX V* w_impl_ptr_##I(A* o) { return &traits().getAttr<I>(o); } \
EX V* w_spec_ptr_##I(A* o) { return &o->w; } \
EX V* w_impl_mref_##I(A& o) { return &traits().getReference<I>().getAttr(o); } \
EX V* w_spec_mref_##I(A& o) { return &o.w; } \
EX V* w_impl_mptr_##I(A* o) { return &traits().getReference<I>().getAttr(o); } \
EX V* w_spec_mptr_##I(A* o) { return &o->w; } \
static_assert(IsDirectAccess<T::memRefType<I>>::value, "direct access");
DIRECT(M)
static_assert(!IsDirectAccess<T::memRefType<3>>::value && !IsDirectAccess<T::memRefType<4>>::value && !IsDirectAccess<T::memRefType<6>>::value && !IsDirectAccess<T::memRefType<8>>::value && !IsDirectAccess<T::memRefType<11>>::value && !IsDirectAccess<T::memRefType<12>>::value, "no direct access");
EX const int* w_impl_cref(const A& o) { return &traits().getReference<0>().getAttr(o); }
EX const int* w_spec_cref(const A& o) { return &o.a; }
EX const double* w_impl_cptr(const A* o) { return &traits().getReference<1>().getAttr(o); }
EX const double* w_spec_cptr(const A* o) { return &o->b; }
EX const char* w_impl_cval(const A& o) { return &traits().getReference<2>().getValue(o); }
EX const char* w_spec_cval(const A& o) { return &o.c; }
//@ section bound
// accessors made by std::bind
#define BOUND makeTraits<A>("e", std::make_pair(std::bind(&A::getE, std::placeholders::_1), std::bind(&A::setE, std::placeholders::_1, std::placeholders::_2)), "h", std::make_pair(std::bind(&getH, std::placeholders::_1), std::bind(&setH, std::placeholders::_1, std::placeholders::_2)))
EX int w_impl_get0(const A& o) { return BOUND.getValue<0>(o); }
EX int w_spec_get0(const A& o) { return o.e; }
EX int w_impl_get0p(const A* o) { return BOUND.getValue<0>(o); }
EX int w_spec_get0p(const A* o) { return o->e; }
EX int w_impl_get1(A& o) { return BOUND.getValue<1>(o); }
EX int w_spec_get1(A& o) { return o.h; }
EX void w_impl_set0(A& R o, const int& R x) { BOUND.setValue<0>(o, x); }
EX void w_spec_set0(A& R o, const int& R x) { o.e = x; }
EX void w_impl_set0p(A* R o, const int& R x) { BOUND.setValue<0>(o, x); }
EX void w_spec_set0p(A* R o, const int& R x) { o->e = x; }
EX void w_impl_set1(A& R o, const int& R x) { BOUND.setValue<1>(o, x); }
EX void w_spec_set1(A& R o, const int& R x) { o.h = x; }
//@ section own_object
// the accessors get the object itself, not a copy of it: its class cannot be copied
struct S { int a; S(const S&) = delete; S& operator=(const S&) = delete; int get() const { return a; } int take() { return a; } void set(const int& x) { a = x; } int& ref() { return a; } };
struct SGet { int operator()(const S& o) const { return o.a; } }; struct STake { int operator()(S& o) const { return o.a; } };
struct SSet { void operator()(S& o, const int& x) const { o.a = x; } }; struct SRef { int& operator()(S& o) const { return o.a; } };
inline auto straits() { return makeTraits<S>("a", &S::a, "b", std::make_pair(&S::get, &S::set), "c", std::make_pair(&S::take, &S::ref), "d", std::make_pair(SGet(), SSet()), "e", std::make_pair(STake(), SRef())); }
#define M(I) \
EX int w_impl_get_##I(S& o) { return straits().getValue<I>(o); } \
EX int w_spec_get_##I(S& o) { return o.a; } \
EX int w_impl_getp_##I(S* o) { return straits().getValue<I>(o); } \
EX int w_spec_getp_##I(S* o) { return o->a; } \
EX void w_impl_set_##I(S& R o, const int& R x) { straits().setValue<I>(o, x); } \
EX void w_spec_set_##I(S& R o, const int& R x) { o.a = x; } \
EX void w_impl_setp_##I(S* R o, const int& R x) { straits().setValue<I>(o, x); } \
EX void w_spec_setp_##I(S* R o, const int& R x) { o->a = x; }
M(0) M(1) M(2) M(3) M(4)
#define C(I) \
EX int w_impl_cget_##I(const S& o) { return straits().getValue<I>(o); } \
EX int w_spec_cget_##I(const S& o) { return o.a; } \
EX int w_impl_cgetp_##I(const S* o) { return straits().getValue<I>(o); } \
EX int w_spec_cgetp_##I(const S* o) { return o->a; }
C(0) C(1) C(3)
//@ section stored
// accessors chosen at run time: the stored pointers themselves are used
EX int w_impl_member(A& o, int A::* p) { return makeTraits<A>("p", p).getValue<0>(o); }
EX int w_spec_member(A& o, int A::* p) { return o.*p; }
EX void w_impl_memberset(A& R o, int A::* p, const int& R x) { makeTraits<A>("p", p, "q", &A::a).setValue<0>(o, x); }
EX void w_spec_memberset(A& R o, int A::* p, const int& R x) { o.*p = x; }
EX int w_impl_second(A& o, int A::* p, int A::* q) { return makeTraits<A>("p", p, "q", q).getValue<1>(o); }
EX int w_spec_second(A& o, int A::* p, int A::* q) { return o.*q; }
EX int w_impl_copied(A& o, int A::* p, int A::* q) { auto t = makeTraits<A>("p", p, "q", q); auto u = t; auto v = std::move(u); return v.getValue<0>(o) - v.getValue<1>(o); }
EX int w_spec_copied(A& o, int A::* p, int A::* q) { return o.*p - o.*q; }
EX const char* w_impl_name(const char* n, const char* m, int A::* p, int A::* q) { return makeTraits<A>(n, p, m, q).getName<1>(); }
EX const char* w_spec_name(const char* n, const char* m, int A::* p, int A::* q) { return m; }
EX const char* w_impl_name0(const char* n, const char* m, int A::* p, int A::* q) { return makeTraits<A>(n, p, m, q).getName<0>(); }
EX const char* w_spec_name0(const char* n, const char* m, int A::* p, int A::* q) { return n; }
//@ section nested
// attributes of attributes by a list of indices
struct In { double u; int v; }; struct Mid { int p; In q; In r; }; struct Out { Mid m; double w; Mid n; };
MAKE_ATTRIBUTE_TRAIT(In, u, v); MAKE_ATTRIBUTE_TRAIT_ARITHMETIC(Mid, p, q, r); MAKE_ATTRIBUTE_TRAIT(Out, m, w, n);
EX double* w_impl_1(Out& o) { return &get<1>(o); }
EX double* w_spec_1(Out& o) { return &o.w; }
EX Mid* w_impl_2(Out* o) { return &get<2>(o); }
EX Mid* w_spec_2(Out* o) { return &o->n; }
EX int* w_impl_00(Out& o) { return &get<0, 0>(o); }
EX int* w_spec_00(Out& o) { return &o.m.p; }
EX In* w_impl_22(Out* o) { return &get<2, 2>(o); }
EX In* w_spec_22(Out* o) { return &o->n.r; }
EX int* w_impl_021(Out& o) { return &get<0, 2, 1>(o); }
EX int* w_spec_021(Out& o) { return &o.m.r.v; }
EX double* w_impl_210(Out* o) { return &get<2, 1, 0>(o); }
EX double* w_spec_210(Out* o) { return &o->n.q.u; }
//@ compile non_const_getters
inline int f(A& o) { return traits().getValue<4>(o) + traits().getValue<4>(&o) + traits().getValue<7>(&o); }
//@ nocompile const_object_nonconst_getter
inline int f(const A& o) { return traits().getValue<4>(o); }
//@ nocompile const_pointer_nonconst_getter
inline int f(const A* o) { return traits().getValue<4>(o); }
//@ nocompile const_object_nonconst_function
inline int f(const A& o) { return traits().getValue<7>(o); }
//@ nocompile attribute_of_setter
inline int& f(A& o) { return traits().getAttr<3>(o); }
//@ nocompile attribute_pointer_of_setter
inline int& f(A* o) { return traits().getAttr<3>(o); }
//@ nocompile attribute_of_function_setter
inline int& f(A& o) { return traits().getAttr<6>(o); }
//@ nocompile attribute_of_functor_setter
inline int& f(A& o) { return traits().getAttr<8>(o); }
//@ nocompile write_constant
inline void f(const A& o) { traits().setValue<0>(o, 1); }
//@ nocompile write_constant_pointer
inline void f(const A* o) { traits().setValue<0>(o, 1); }
//@ nocompile write_constant_by_setter
inline void f(const A& o) { traits().setValue<3>(o, 1); }
//@ nocompile attribute_of_constant
inline int& f(const A& o) { return traits().getAttr<0>(o); }
//@ nocompile outside
inline int f(A& o) { return traits().getValue<13>(o); }
//@ nocompile name_outside
inline const char* f(A& o) { return traits().getName<13>(); }
