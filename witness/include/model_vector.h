#pragma once
// A reference model of std::vector for the abstract program: the elements live
// at data(), there are size() of them, and every operation that may change the
// storage yields a new, unknown data().  Bytes are appended one by one, so that
// push_back, insert and friends leave the same trace.
// Everything of the standard library that uses std::vector itself comes first.
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <vector>
// with MV_TERM the storage is a term: a function of the operations, not an effect
#ifdef MV_TERM
#define MV_EFFECT __attribute__((const, nothrow))
#else
#define MV_EFFECT
#endif
extern "C" {
void* mv_byte(size_t data, size_t n, unsigned char c) MV_EFFECT;   // one byte appended
void* mv_put(size_t data, size_t n, const void* x) MV_EFFECT;      // one element appended
void* mv_grow(size_t data, size_t n, size_t k) MV_EFFECT;          // k unspecified elements appended
void* mv_resize(size_t data, size_t n, size_t k) MV_EFFECT;        // resized
void* mv_reserve(size_t data, size_t n, size_t k) MV_EFFECT;       // more storage
void* mv_copy(size_t data, size_t n) MV_EFFECT;                    // copied elsewhere
void* mv_fill(size_t data, size_t n, size_t k, long x) MV_EFFECT;   // k equal elements appended
void* mv_list(size_t data, size_t x) MV_EFFECT;                    // a listed number
void mv_raise();
}
namespace std {
// with MV_TERM a list of numbers is a term of them, and a copy of it is the same list
template <class T> struct model_listed : std::false_type {};
#ifdef MV_TERM
template <> struct model_listed<int> : std::true_type {};
template <size_t N> struct model_listed<std::array<int, N>> : std::true_type {};
#endif
inline size_t model_word(int x) { return size_t(long(x)); }
template <size_t N> inline size_t model_word(const std::array<int, N>& a) {
    size_t h = 0;
#pragma clang loop unroll(full)
    for (size_t i = 0; i < N; ++i) h = reinterpret_cast<size_t>(mv_list(h, size_t(long(a[i]))));
    return h;
}
template <class T> class model_vector {
    T* b;
    size_t n;
    size_t id() const { return reinterpret_cast<size_t>(b); }
    void set(void* p) { b = static_cast<T*>(p); }
    template <class L> void list(const L& l, std::true_type) {
#pragma clang loop unroll(full)
        for (auto& x : l) { set(mv_list(id(), model_word(x))); n += 1; }
    }
    template <class L> void list(const L& l, std::false_type) { insert(end(), l.begin(), l.end()); }
    void put(const T& x, std::true_type) { set(mv_byte(id(), n, x)); n += 1; }
#ifdef MV_TERM
    void put(const T& x, std::false_type) { set(mv_grow(id(), n, 1)); new (b + n) T(x); n += 1; }
#else
    void put(const T& x, std::false_type) { set(mv_put(id(), n, &x)); n += 1; }
#endif
public:
    using value_type = T;
    using size_type = size_t;
    using difference_type = ptrdiff_t;
    using reference = T&;
    using const_reference = const T&;
    using pointer = T*;
    using const_pointer = const T*;
    using iterator = __gnu_cxx::__normal_iterator<T*, model_vector>;
    using const_iterator = __gnu_cxx::__normal_iterator<const T*, model_vector>;
    model_vector() noexcept : b(nullptr), n(0) {}
    explicit model_vector(size_t k) : b(nullptr), n(0) { resize(k); }
    model_vector(const model_vector& o) : b(o.b), n(o.n) { if (!model_listed<T>::value) set(mv_copy(o.id(), o.n)); }
    model_vector(model_vector&& o) noexcept : b(o.b), n(o.n) { o.b = nullptr; o.n = 0; }
    model_vector& operator=(const model_vector& o) { if (this != &o) { n = o.n; b = o.b; if (!model_listed<T>::value) set(mv_copy(o.id(), o.n)); } return *this; }
    model_vector& operator=(model_vector&& o) noexcept { T* p = o.b; size_t k = o.n; o.b = nullptr; o.n = 0; b = p; n = k; return *this; }
    template <class It, class = typename std::iterator_traits<It>::iterator_category> model_vector(It f, It l) : b(nullptr), n(0) { insert(end(), f, l); }
    model_vector(std::initializer_list<T> l) : b(nullptr), n(0) { list(l, std::integral_constant<bool, model_listed<T>::value>()); }
    model_vector(size_t k, const T& x) : b(nullptr), n(0) { resize(k, x); }
    size_t size() const noexcept { return n; }
    bool empty() const noexcept { return n == 0; }
    T* data() noexcept { return b; }
    const T* data() const noexcept { return b; }
    iterator begin() noexcept { return iterator(b); }
    iterator end() noexcept { return iterator(b + n); }
    const_iterator begin() const noexcept { return const_iterator(b); }
    const_iterator end() const noexcept { return const_iterator(b + n); }
    const_iterator cbegin() const noexcept { return const_iterator(b); }
    const_iterator cend() const noexcept { return const_iterator(b + n); }
    T& operator[](size_t i) { return b[i]; }
    const T& operator[](size_t i) const { return b[i]; }
    T& at(size_t i) { if (i >= n) std::__throw_out_of_range_fmt("at"); return b[i]; }
    const T& at(size_t i) const { if (i >= n) std::__throw_out_of_range_fmt("at"); return b[i]; }
    T& front() { return b[0]; }
    T& back() { return b[n - 1]; }
    const T& front() const { return b[0]; }
    const T& back() const { return b[n - 1]; }
    void push_back(const T& x) { put(x, std::is_same<T, unsigned char>()); }
    template <class... A> void emplace_back(A&&... a) { push_back(T(std::forward<A>(a)...)); }
    void resize(size_t k) { set(mv_resize(id(), n, k)); n = k; }
    void fill(size_t k, const T& x, std::true_type) { set(mv_fill(id(), n, k - n, long(x))); n = k; }
    void fill(size_t k, const T& x, std::false_type) { const size_t o = n; resize(k); for (size_t i = o; i < k; ++i) b[i] = x; }
    void resize(size_t k, const T& x) { if (k > n) fill(k, x, std::integral_constant<bool, std::is_enum<T>::value || std::is_integral<T>::value>()); else resize(k); }
    void assign(size_t k, const T& x) { resize(k); for (size_t i = 0; i < k; ++i) b[i] = x; }
    template <class It, class = typename std::iterator_traits<It>::iterator_category> void assign(It f, It l) { clear(); insert(end(), f, l); }
    void reserve(size_t) {}
    void clear() noexcept { n = 0; }
    void shrink_to_fit() {}
    void swap(model_vector& o) { std::swap(b, o.b); std::swap(n, o.n); }
    // positions other than end() are not modelled
    template <class It> void insert(const_iterator, It f, It l) { for (; f != l; ++f) push_back(*f); }
    void extend(size_t k) { set(mv_grow(id(), n, k)); n += k; }
};
#ifdef MV_TERM
template <class T> struct model_listed<model_vector<T>> : model_listed<T> {};
#endif
template <class T> inline size_t model_word(const model_vector<T>& v) { return reinterpret_cast<size_t>(mv_list(reinterpret_cast<size_t>(v.data()), v.size())); }
template <class A, class B> inline size_t model_word(const std::pair<A, B>& p) { return reinterpret_cast<size_t>(mv_list(model_word(p.first), model_word(p.second))); }
template <class A, class B> struct model_listed<std::pair<A, B>> : std::integral_constant<bool, model_listed<typename std::remove_const<A>::type>::value && model_listed<typename std::remove_const<B>::type>::value> {};
template <class T> bool operator==(const model_vector<T>& a, const model_vector<T>& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
}
#define vector model_vector
