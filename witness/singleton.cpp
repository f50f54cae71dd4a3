//@ preamble
#include <GTMesh/Singleton/Singleton.h>
#include <cstddef>
#define EX extern "C"
EX void made(int which);
EX void note(int which);
struct A { long v = 5; A() { made(1); } };
struct B { char c[40]; B() { made(2); } };
struct P { int* p; long n; P() : p(nullptr), n(0) { made(3); } };
template <class T> inline T& get() { return Singleton<T>::getInstance(); }
//@ section accesses flags=-fno-threadsafe-statics argmem=@(made|note)$
// what a second access adds to the first one: nothing
#define TYPE(T) \
EX T* w_impl_##T##_second() { get<T>(); note(1); T* a = &get<T>(); note(2); return a; } \
EX T* w_spec_##T##_second() { T* a = &get<T>(); note(1); note(2); return a; } \
EX bool w_impl_##T##_same() { T* a = &get<T>(); T* b = &get<T>(); T* c = &get<T>(); return a == b && b == c; } \
EX bool w_spec_##T##_same() { get<T>(); return true; }
TYPE(A)
TYPE(B)
TYPE(P)
//@ section threads argmem=@(made|note)$
EX A* w_get_A() { return &get<A>(); }
EX B* w_get_B() { return &get<B>(); }
EX P* w_get_P() { return &get<P>(); }
//@ section console argmem=@(made|note)$ std=string
#include <GTMesh/Debug/Debug.h>
EX ConsoleLogger* w_get_C() { return &dbg::getDebugConsoleLogger(); }
//@ nocompile copy
struct D : Singleton<A> { D() {} };
void f(D& d) { D e(d); }
//@ nocompile copy_const
struct D : Singleton<A> { D() {} };
void f(const D& d) { D e(d); }
//@ nocompile move
struct D : Singleton<A> { D() {} };
D g();
void f(D& d) { D e(static_cast<D&&>(d)); }
//@ nocompile assign
struct D : Singleton<A> { D() {} };
void f(D& d, D& e) { d = e; }
//@ nocompile construct
void f() { Singleton<A> a; }
//@ compile use
struct D : Singleton<A> { D() {} };
A& f() { D d; return D::getInstance(); }
