//@ preamble
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Utils/ConstexprFor.h>
#include <string>
#define EX extern "C"
#define R __restrict
// what a functor was given: index, access (shown by the member it reads) and name
EX void visit(size_t, const void*, const void*);
EX void named(size_t, const void*);
struct A { int a; double b; char c; short d; long e; };
inline const char* text(const char* n) { return n; }
inline const char* text(const std::string& n) { return n.c_str(); }
// takes any access and name: called with (index, access, name)
struct Three { A* o; template <class M, class N> void operator()(unsigned int i, const M& m, const N& n) const { visit(i, &m.getAttr(*o), text(n)); } };
// (access, name)
struct Two { A* o; template <class M, class N> void operator()(const M& m, const N& n) const { visit(99, &m.getAttr(*o), text(n)); } };
// names as the documented type
struct Doc3 { A* o; template <class M> void operator()(unsigned int i, const M& m, const std::string& n) const { visit(i, &m.getAttr(*o), n.c_str()); } };
struct Doc2 { A* o; template <class M> void operator()(const M& m, const std::string& n) const { visit(99, &m.getAttr(*o), n.c_str()); } };
// selected by the member's type
static A object;
template <class C, class V> struct Typed { template <class N> void operator()(unsigned int i, const MemberAccess<A, V A::*>& m, const N& n) const { visit(i * 100 + sizeof(V), &m.getAttr(object), text(n)); } };
template <class C, class V> struct TypedDoc { void operator()(unsigned int i, const MemberAccess<A, V A::*>& m, const std::string& n) const { visit(i * 100 + sizeof(V), &m.getAttr(object), n.c_str()); } };
//@ section forms argmem=@visit$
#define ONE &A::a
#define T1 makeTraits<A>(n[0], &A::b)
#define T2 makeTraits<A>(n[0], &A::b, n[1], &A::a)
#define T3 makeTraits<A>(n[0], &A::c, n[1], &A::a, n[2], &A::e)
#define T5 makeTraits<A>(n[0], &A::d, n[1], &A::a, n[2], &A::e, n[3], &A::b, n[4], &A::c)
#define M1(V) V(0, b)
#define M2(V) V(0, b) V(1, a)
#define M3(V) V(0, c) V(1, a) V(2, e)
#define M5(V) V(0, d) V(1, a) V(2, e) V(3, b) V(4, c)
#define V3(i, m) visit(i, &o.m, n[i]);
#define V2(i, m) visit(99, &o.m, n[i]);
#define VT(i, m) visit(i * 100 + sizeof(A::m), &object.m, n[i]);
#define F(N) \
EX void w_impl_three_##N(A& o, const char** n) { auto t = T##N; t.apply(Three{&o}); } \
EX void w_spec_three_##N(A& o, const char** n) { M##N(V3) } \
EX void w_impl_two_##N(A& o, const char** n) { T##N.apply(Two{&o}); } \
EX void w_spec_two_##N(A& o, const char** n) { M##N(V2) } \
EX void w_impl_lambda_##N(A& o, const char** n) { T##N.apply([&o](unsigned int i, const auto& m, const auto& s) { visit(i, &m.getAttr(o), text(s)); }); } \
EX void w_spec_lambda_##N(A& o, const char** n) { M##N(V3) } \
EX void w_impl_typed_##N(const char** n) { T##N.apply<Typed>(); } \
EX void w_spec_typed_##N(const char** n) { M##N(VT) } \
static_assert(decltype(makeTraits<A>("", &A::b))::size() == 1, "size");
F(1) F(2) F(3) F(5)
// a longer list of members
#define T12 makeTraits<A>(n[0], &A::d, n[1], &A::a, n[2], &A::e, n[3], &A::b, n[4], &A::c, n[5], &A::a, n[6], &A::e, n[7], &A::d, n[8], &A::c, n[9], &A::b, n[10], &A::a, n[11], &A::e)
#define M12(V) M5(V) V(5, a) V(6, e) V(7, d) V(8, c) V(9, b) V(10, a) V(11, e)
F(12)
// what the functor keeps for itself is seen at the next member
struct Count { A* o; size_t n; template <class M, class N> void operator()(const M& m, const N& s) { visit(n, &m.getAttr(*o), text(s)); ++n; } };
EX void w_impl_state(A& o, const char** n) { T5.apply(Count{&o, 0}); }
EX void w_spec_state(A& o, const char** n) { M5(V3) }
struct Count3 { A* o; size_t n; template <class M, class N> void operator()(unsigned int, const M& m, const N& s) { visit(n, &m.getAttr(*o), text(s)); ++n; } };
EX void w_impl_state3(A& o, const char** n) { T5.apply(Count3{&o, 0}); }
EX void w_spec_state3(A& o, const char** n) { M5(V3) }
//@ section documented std=string argmem=@visit$
#define T1 makeTraits<A>(n[0], &A::b)
#define T2 makeTraits<A>(n[0], &A::b, n[1], &A::a)
#define T3 makeTraits<A>(n[0], &A::c, n[1], &A::a, n[2], &A::e)
#define M1(V) V(0, b)
#define M2(V) V(0, b) V(1, a)
#define M3(V) V(0, c) V(1, a) V(2, e)
#define V3(i, m) Doc3{&o}(i, MemberAccess<A, decltype(&A::m)>(&A::m), n[i]);
#define V2(i, m) Doc2{&o}(MemberAccess<A, decltype(&A::m)>(&A::m), n[i]);
#define VT(i, m) TypedDoc<A, decltype(A::m)>()(i, MemberAccess<A, decltype(&A::m)>(&A::m), n[i]);
#define F(N) \
EX void w_impl_three_##N(A& o, const char** n) { T##N.apply(Doc3{&o}); } \
EX void w_spec_three_##N(A& o, const char** n) { M##N(V3) } \
EX void w_impl_two_##N(A& o, const char** n) { T##N.apply(Doc2{&o}); } \
EX void w_spec_two_##N(A& o, const char** n) { M##N(V2) } \
EX void w_impl_typed_##N(const char** n) { T##N.apply<TypedDoc>(); } \
EX void w_spec_typed_##N(const char** n) { M##N(VT) }
F(1) F(2) F(3)
//@ section indexed
// the size and the members by index agree with the declaration
#define T4 makeTraits<A>("d", &A::d, "e", &A::e, "a", &A::a, "b", &A::b)
using Tr = decltype(T4);
static_assert(Tr::size() == 4 && std::is_same<Tr::type<0>, short>::value && std::is_same<Tr::type<1>, long>::value && std::is_same<Tr::type<2>, int>::value && std::is_same<Tr::type<3>, double>::value, "types by index");
static_assert(std::is_same<Tr::refType<0>, short A::*>::value && std::is_same<Tr::refType<3>, double A::*>::value && std::is_same<Tr::memRefType<2>, MemberAccess<A, int A::*>>::value, "references by index");
EX size_t w_impl_size() { return T4.size(); }
EX size_t w_spec_size() { return 4; }
#define F(i, m) \
EX void* w_impl_member_##i(A& o) { return &T4.getAttr<i>(o); } \
EX void* w_spec_member_##i(A& o) { return &o.m; } \
EX const char* w_impl_name_##i(const char** n) { return makeTraits<A>(n[0], &A::d, n[1], &A::e, n[2], &A::a, n[3], &A::b).getName<i>(); } \
EX const char* w_spec_name_##i(const char** n) { return n[i]; }
F(0, d) F(1, e) F(2, a) F(3, b)
//@ section compile_time_loop argmem=@named$
struct Step { template <size_t I> static void exec(const void* p) { named(I, p); } };
struct Step2 { template <size_t I> static void exec(const int& p, int& q) { q += p; named(I, &q); } };
EX void w_impl_upto(const void* p) { constexprFor<Step, 4>(p); }
EX void w_spec_upto(const void* p) { named(0, p); named(1, p); named(2, p); named(3, p); }
EX void w_impl_none(const void* p) { constexprFor<Step, 0>(p); }
EX void w_spec_none(const void* p) { }
EX void w_impl_range(const void* p) { constexprFor<Step, 2, 5>(p); }
EX void w_spec_range(const void* p) { named(2, p); named(3, p); named(4, p); }
EX void w_impl_step(const void* p) { constexprFor<Step, 1, 8, 3>(p); }
EX void w_spec_step(const void* p) { named(1, p); named(4, p); named(7, p); }
EX void w_impl_args(const int& R p, int& R q) { constexprFor<Step2, 3>(p, q); }
EX void w_spec_args(const int& R p, int& R q) { q += p; named(0, &q); q += p; named(1, &q); q += p; named(2, &q); }
EX void w_impl_class(const void* p) { ConstexprFor<3, 6>::exec<Step>(p); }
EX void w_spec_class(const void* p) { named(3, p); named(4, p); named(5, p); }
