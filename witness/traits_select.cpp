//@ preamble
#include <GTMesh/Traits/Traits.h>
#include <GTMesh/Traits/TraitsBind/TraitsBind.h>
#include <GTMesh/Utils/ClassSelector.h>
#include <type_traits>
#define EX extern "C"
#define SA(...) static_assert(__VA_ARGS__, #__VA_ARGS__);
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
// K<n> provides the default reflection (member d) if n & 1, the one for output (member i) if n & 2,
// the one for arithmetic (member m) if n & 4
template <int N> struct K { double d; int i; char m; };
template <int N> using TD = Traits<K<N>, double K<N>::*>;
template <int N> using TI = Traits<K<N>, int K<N>::*>;
template <int N> using TM = Traits<K<N>, char K<N>::*>;
using K0 = K<0>; using K1 = K<1>; using K2 = K<2>; using K3 = K<3>; using K4 = K<4>; using K5 = K<5>; using K6 = K<6>; using K7 = K<7>;
MAKE_NAMED_ATTRIBUTE_TRAIT(K1, "default", d); MAKE_NAMED_ATTRIBUTE_TRAIT(K3, "default", d); MAKE_NAMED_ATTRIBUTE_TRAIT(K5, "default", d); MAKE_NAMED_ATTRIBUTE_TRAIT(K7, "default", d);
MAKE_NAMED_ATTRIBUTE_TRAIT_IO(K2, "io", i); MAKE_NAMED_ATTRIBUTE_TRAIT_IO(K3, "io", i); MAKE_NAMED_ATTRIBUTE_TRAIT_IO(K6, "io", i); MAKE_NAMED_ATTRIBUTE_TRAIT_IO(K7, "io", i);
MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(K4, "arithmetic", m); MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(K5, "arithmetic", m); MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(K6, "arithmetic", m); MAKE_NAMED_ATTRIBUTE_TRAIT_ARITHMETIC(K7, "arithmetic", m);
#define ALL(M) M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7)
// what is expected to be chosen
template <int N> using ExpIO = std::conditional_t<(N & 2) != 0, TI<N>, TD<N>>;
template <int N> using ExpAr = std::conditional_t<(N & 4) != 0, TM<N>, TD<N>>;
//@ compile provided
// which reflections a class has, alone and by fallback
#define M(N) SA(HasDefaultTraits<K<N>>::value == ((N & 1) != 0)) SA(HasDefaultIOTraits<K<N>>::value == ((N & 3) != 0)) SA(HasDefaultArithmeticTraits<K<N>>::value == ((N & 5) != 0)) \
SA(HasDefaultTraitsOfType<K<N>, DefaultTraits>::value == ((N & 1) != 0)) SA(HasDefaultTraitsOfType<K<N>, DefaultIOTraits>::value == ((N & 3) != 0)) SA(HasDefaultTraitsOfType<K<N>, DefaultArithmeticTraits>::value == ((N & 5) != 0))
ALL(M)
SA(!HasDefaultTraits<int>::value && !HasDefaultIOTraits<int>::value && !HasDefaultArithmeticTraits<double>::value)
//@ compile default_priority
#define M(N) SA(same<DefaultTraits<K<N>>::traitsType, TD<N>>)
M(1) M(3) M(5) M(7)
#undef M
#define M(N) SA(same<DefaultIOTraits<K<N>>::traitsType, ExpIO<N>>) SA(same<std::decay_t<decltype(DefaultIOTraits<K<N>>::getTraits())>, ExpIO<N>>) SA(DefaultIOTraits<K<N>>::size() == 1)
M(1) M(2) M(3) M(5) M(6) M(7)
#undef M
#define M(N) SA(same<DefaultArithmeticTraits<K<N>>::traitsType, ExpAr<N>>) SA(same<std::decay_t<decltype(DefaultArithmeticTraits<K<N>>::getTraits())>, ExpAr<N>>) SA(DefaultArithmeticTraits<K<N>>::size() == 1)
M(1) M(3) M(4) M(5) M(6) M(7)
//@ compile bound_priority
// lists of bound reflections; Own is one of the class itself, Two another one of it, Other of another class
using Other = Traits<int, int>; struct Z { int a; }; using OtherZ = Traits<Z, int Z::*>;
template <int N> using Own = Traits<K<N>, int K<N>::*, double K<N>::*>;
template <int N> using Two = Traits<K<N>, char K<N>::*, double K<N>::*>;
#define SEL(N, E, ...) SA(SelectTraitsWithIODefault<K<N>, __VA_ARGS__>::valid && same<SelectTraitsWithIODefault<K<N>, __VA_ARGS__>::TypeTraits, E>) \
SA(SelectTraitsWithArithmeticDefault<K<N>, __VA_ARGS__>::valid && same<SelectTraitsWithArithmeticDefault<K<N>, __VA_ARGS__>::TypeTraits, E>) \
SA(SelectTraits<K<N>, 0, DefaultTraits, __VA_ARGS__>::valid && same<SelectTraits<K<N>, 0, DefaultTraits, __VA_ARGS__>::TypeTraits, E>)
#define M(N) SEL(N, Own<N>, Own<N>) SEL(N, Own<N>, const Own<N>&) SEL(N, Own<N>, const Own<N>&, const Two<N>&) SEL(N, Two<N>, const Two<N>&, const Own<N>&) \
SEL(N, Own<N>, const OtherZ&, const Own<N>&) SEL(N, Own<N>, const Own<N>&, const OtherZ&) SEL(N, Own<N>, const OtherZ&, const Own<N>&, const OtherZ&) SEL(N, Two<N>, const OtherZ&, const OtherZ&, const Two<N>&, const Own<N>&) SEL(N, Two<N>, OtherZ, Two<N>, Own<N>) \
SEL(N, Own<N>, const OtherZ&, const OtherZ&, const OtherZ&, const OtherZ&, const OtherZ&, const Own<N>&, const Two<N>&) SEL(N, Two<N>, OtherZ, OtherZ, OtherZ, OtherZ, Two<N>, OtherZ, Own<N>, OtherZ) \
SA(IsTraitsOf<K<N>, Own<N>>::value && IsTraitsOf<K<N>, const Own<N>&>::value && !IsTraitsOf<K<N>, OtherZ>::value && !IsTraitsOf<K<N>, const OtherZ&>::value && !IsTraitsOf<K<N>, int>::value)
ALL(M)
//@ compile fallback
// nothing bound to the class: the reflection of the context, if there is one
struct Z { int a; }; using OtherZ = Traits<Z, int Z::*>; struct Y { int a; }; using OtherY = Traits<Y, int Y::*>;
#define NO(N, ...) SA(SelectTraitsWithIODefault<K<N> __VA_ARGS__>::valid == ((N & 3) != 0)) SA(SelectTraitsWithArithmeticDefault<K<N> __VA_ARGS__>::valid == ((N & 5) != 0))
#define M(N) NO(N) NO(N, , OtherZ) NO(N, , const OtherZ&) NO(N, , const OtherZ&, const OtherY&) NO(N, , const OtherY&, const OtherZ&, const OtherY&)
ALL(M)
#undef M
#define IO(N, ...) SA(same<SelectTraitsWithIODefault<K<N> __VA_ARGS__>::TypeTraits, ExpIO<N>>)
#define M(N) IO(N) IO(N, , OtherZ) IO(N, , const OtherZ&) IO(N, , const OtherZ&, const OtherY&) IO(N, , const OtherY&, const OtherZ&, const OtherY&)
M(1) M(2) M(3) M(5) M(6) M(7)
#undef M
#define AR(N, ...) SA(same<SelectTraitsWithArithmeticDefault<K<N> __VA_ARGS__>::TypeTraits, ExpAr<N>>)
#define M(N) AR(N) AR(N, , OtherZ) AR(N, , const OtherZ&) AR(N, , const OtherZ&, const OtherY&) AR(N, , const OtherY&, const OtherZ&, const OtherY&)
M(1) M(3) M(4) M(5) M(6) M(7)
//@ section instance
// the bound object itself is used (seen by the names stored in it); x, y are reflections of A, z of B
struct A { int a, b, c; }; struct B { int a, b, c; };
MAKE_NAMED_ATTRIBUTE_TRAIT(A, "c", c); MAKE_NAMED_ATTRIBUTE_TRAIT_IO(A, "b", b);
#define LISTS(F) F(x, bindTraits(a, x), x) F(y, bindTraits(a, y), y) F(xz, bindTraits(a, x, z), x) F(zx, bindTraits(a, z, x), x) F(zyx, bindTraits(a, z, y, x), y) F(xy, bindTraits(a, x, y), x) F(yx, bindTraits(a, y, x), y) F(zzy, bindTraits(a, z, z, y), y) F(zzzx, bindTraits(a, z, z, z, x, y), x) F(zzzzyx, bindTraits(a, z, z, z, z, y, x), y) F(zzzzzzx, bindTraits(a, z, z, z, z, z, z, x), x)
#define DECL auto x = makeTraits<A>(n[0], &A::a, n[1], &A::b); auto y = makeTraits<A>(n[2], &A::a, n[3], &A::c, n[4], &A::b); auto z = makeTraits<B>(n[5], &B::a);
template <class O, class T, class... Q> decltype(auto) chosen(const TraitsBinder<O, Q...>& b, T*) { return SelectTraitsWithIODefault<T, const Q&...>::getTraitsInstance(b.tupTraits); }
template <class O, class T, class... Q> decltype(auto) chosenA(const TraitsBinder<O, Q...>& b, T*) { return SelectTraitsWithArithmeticDefault<T, const Q&...>::getTraitsInstance(b.tupTraits); }
#define F(name, bind, exp) \
EX const char* w_impl_io_##name(A& a, const char** n) { DECL auto b = bind; return chosen(b, &a).getName<1>(); } \
EX const char* w_spec_io_##name(A& a, const char** n) { DECL return exp.getName<1>(); } \
EX const char* w_impl_ar_##name(A& a, const char** n) { DECL auto b = bind; return chosenA(b, &a).getName<0>(); } \
EX const char* w_spec_ar_##name(A& a, const char** n) { DECL return exp.getName<0>(); } \
EX bool w_true_same_##name(A& a, const char** n) { DECL auto b = bind; return &chosen(b, &a) == &exp && &chosenA(b, &a) == &exp; } \
EX bool w_true_object_##name(A& a, const char** n) { DECL auto b = bind; auto c = b; return &b.object == &a && &c.object == &a; }
LISTS(F)
EX int w_impl_noneio(A& a, const char** n) { DECL auto b = bindTraits(a, z); return chosen(b, &a).getValue<0>(a); }
EX int w_spec_noneio(A& a, const char** n) { return a.b; }
EX int w_impl_nonear(A& a, const char** n) { DECL auto b = bindTraits(a, z, z); return chosenA(b, &a).getValue<0>(a); }
EX int w_spec_nonear(A& a, const char** n) { return a.c; }
EX int w_impl_single(A& a) { return SelectTraitsWithIODefault<A>::getTraitsInstance(std::tuple<>()).getValue<0>(a); }
EX int w_spec_single(A& a) { return a.b; }
EX int w_impl_singlear(A& a) { return SelectTraitsWithArithmeticDefault<A>::getTraitsInstance(std::tuple<>()).getValue<0>(a); }
EX int w_spec_singlear(A& a) { return a.c; }
//@ compile first_suitable
// the first class that satisfies the condition, the last one unconditionally
template <class V, class C> struct Fits : std::integral_constant<bool, (C::mask & V::value) != 0> {};
template <int N> struct P { static constexpr int mask = N; };
template <int N> using V = std::integral_constant<int, N>;
#define S(E, v, ...) SA(same<ClassSelector<V<v>, Fits, __VA_ARGS__>::SelectedClass, E>)
S(P<1>, 1, P<1>, P<2>) S(P<2>, 2, P<1>, P<2>) S(P<3>, 2, P<3>, P<2>) S(P<2>, 2, P<1>, P<2>, P<3>) S(P<3>, 2, P<1>, P<3>, P<2>) S(P<4>, 8, P<1>, P<2>, P<4>) S(P<8>, 8, P<1>, P<8>, P<12>, P<4>) S(P<6>, 4, P<1>, P<2>, P<6>, P<4>, P<7>) S(P<1>, 7, P<1>) S(P<1>, 2, P<1>)
