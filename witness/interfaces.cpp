//@ preamble
// element access of the standard containers reports an index outside
#define _GLIBCXX_ASSERTIONS
#include <array>
#include <vector>
#include <string>
#include <deque>
#include <list>
#include <map>
#include <GTMesh/Traits/Interfaces/InterfaceIndexable.h>
#include <GTMesh/Traits/Interfaces/InterfaceCompactContainer.h>
#include <GTMesh/NumericStaticArray/Vertex.h>
#define EX extern "C"
#define R __restrict
namespace tnl {
// the other container family: getSize, setSize, getData
template <class T> struct Array {
    T* d; int n;
    int getSize() const { return n; }
    void setSize(int k) { n = k; }
    const T& operator[](int i) const { return d[i]; }
    T& operator[](int i) { return d[i]; }
    T* getData() { return d; }
    const T* getData() const { return d; }
};
template <class T> struct Fixed {
    T d[3];
    int getSize() const { return 3; }
    const T& operator[](int i) const { return d[i]; }
    T& operator[](int i) { return d[i]; }
    T* getData() { return d; }
    const T* getData() const { return d; }
};
}
struct Big { long a[2]; };
enum E : short { e1, e2 };
using VecD = std::vector<double>; using VecB = std::vector<Big>; using Arr5 = std::array<int, 5>; using Str = std::string;
using TA = tnl::Array<double>; using TB = tnl::Array<Big>; using TF = tnl::Fixed<float>; using VecE = std::vector<E>; using Dq = std::deque<int>;
using Vtx = Vertex<3, double>; using VV = std::vector<Vtx>;
//@ section element
#define M(T, Z) \
static_assert(std::is_same<Interface::Indexable<T>::sizeType, decltype(std::declval<const T&>().Z())>::value, "size type"); \
static_assert(std::is_same<Interface::Indexable<T>::valueType, std::decay_t<decltype(std::declval<const T&>()[0])>>::value, "value type"); \
EX const void* w_impl_get_##T(const T& c, Interface::Indexable<T>::sizeType i) { return &Interface::Indexable<T>::getElement(c, i); } \
EX const void* w_spec_get_##T(const T& c, Interface::Indexable<T>::sizeType i) { return &c[i]; } \
EX void* w_impl_ref_##T(T& c, Interface::Indexable<T>::sizeType i) { return &Interface::Indexable<T>::getElementRef(c, i); } \
EX void* w_spec_ref_##T(T& c, Interface::Indexable<T>::sizeType i) { return &c[i]; } \
EX void w_impl_set_##T(T& R c, Interface::Indexable<T>::sizeType i, const Interface::Indexable<T>::valueType& R v) { Interface::Indexable<T>::setElement(c, i, v); } \
EX void w_spec_set_##T(T& R c, Interface::Indexable<T>::sizeType i, const Interface::Indexable<T>::valueType& R v) { c[i] = v; } \
EX size_t w_impl_size_##T(const T& c) { return Interface::Indexable<T>::size(c); } \
EX size_t w_spec_size_##T(const T& c) { return c.Z(); }
M(VecD, size) M(VecB, size) M(Arr5, size) M(VecE, size) M(Vtx, size) M(VV, size) M(Str, size) M(TA, getSize) M(TB, getSize) M(TF, getSize)
//@ section length std=vector,string
#define M(T, ...) \
EX void w_impl_##T(T& c, size_t n) { Interface::Indexable<T>::resize(c, n); } \
EX void w_spec2_##T(T& c, size_t n) { if (Interface::Indexable<T>::size(c) != n) { __VA_ARGS__; } } \
EX void w_spec_##T(T& c, size_t n) { __VA_ARGS__; }
M(VecD, c.resize(n)) M(VecB, c.resize(n)) M(VecE, c.resize(n)) M(Str, c.resize(n)) M(VV, c.resize(n)) M(Arr5) M(Vtx) M(TA, c.setSize(n)) M(TB, c.setSize(n)) M(TF)
//@ section compact_length std=vector,string
#define M(T, ...) \
EX void w_impl_##T(T& c, size_t n) { Interface::CompactContainer<T>::resize(c, n); } \
EX void w_spec2_##T(T& c, size_t n) { if (Interface::CompactContainer<T>::size(c) != n) { __VA_ARGS__; } } \
EX void w_spec_##T(T& c, size_t n) { __VA_ARGS__; }
M(VecD, c.resize(n)) M(VecE, c.resize(n)) M(Str, c.resize(n)) M(Arr5) M(TA, c.setSize(n)) M(TF)
//@ section compact
// the address of the first element; nothing is accessed in an empty container
#define M(T, Z, D) \
EX const void* w_impl_data_##T(const T& c) { auto p = Interface::CompactContainer<T>::data(c); return Interface::CompactContainer<T>::size(c) > 0 ? p : nullptr; } \
EX const void* w_spec_data_##T(const T& c) { return c.Z() > 0 ? &c[0] : nullptr; } \
EX void* w_impl_mdata_##T(T& c) { auto p = Interface::CompactContainer<T>::data(c); return Interface::CompactContainer<T>::size(c) > 0 ? p : nullptr; } \
EX void* w_spec_mdata_##T(T& c) { return c.Z() > 0 ? &c[0] : nullptr; } \
EX size_t w_impl_size_##T(const T& c) { return Interface::CompactContainer<T>::size(c); } \
EX size_t w_spec_size_##T(const T& c) { return c.Z(); } \
static_assert(std::is_same<Interface::CompactContainer<T>::value_type, std::decay_t<decltype(std::declval<const T&>()[0])>>::value, "value type");
M(VecD, size, data) M(VecE, size, data) M(Arr5, size, data) M(Str, size, data) M(TA, getSize, getData) M(TF, getSize, getData)
//@ compile families
// which view a type has
#define I(T, v) static_assert(Interface::Indexable<T>::value == v, "indexable");
#define C(T, v) static_assert(Interface::CompactContainer<T>::value == v, "compact");
#define B(...) __VA_ARGS__
I(VecD, true) I(Arr5, true) I(Vtx, true) I(Dq, true) I(TA, true) I(TF, true) I(Str, true) I(double, false) I(Big, false) I(std::list<int>, false)
C(VecD, true) C(VecB, false) C(Arr5, true) C(VecE, true) C(Str, true) C(TA, true) C(TB, false) C(TF, true) C(Dq, false) C(VV, false) C(std::list<int>, false) C(double, false)
static_assert(!Interface::Indexable<std::map<int, int>>::value && !Interface::CompactContainer<std::map<int, int>>::value, "map");
static_assert(Interface::Compact<double>::value && Interface::Compact<char>::value && Interface::Compact<E>::value && Interface::Compact<bool>::value && !Interface::Compact<Big>::value && !Interface::Compact<int*>::value && !Interface::Compact<std::string>::value, "simple");
