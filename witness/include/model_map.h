#pragma once
// A reference model of std::map and std::unordered_map.  A map that is given its
// entries when it is made (numbers or enumerators) keeps them in a small table;
// every other map is a term of the insertions, and its entries live at places
// that are functions of the map and of the position of the key.
#include "model_vector.h"
extern "C" {
#define MM_TERM __attribute__((const, nothrow))
size_t mm_put(size_t h, size_t key) MM_TERM;             // with one more entry
size_t mm_pos(size_t h, size_t key) MM_TERM;             // position of the key, or the number of entries
size_t mm_size(size_t h) MM_TERM;
void* mm_at(size_t h, size_t pos) MM_TERM;               // the entry at a position
size_t mm_made(size_t n) MM_TERM;                        // made of n entries that are not followed
[[noreturn]] void mm_missing();                         // at() of a key that is not there
void mv_sort(void* p, size_t n, size_t size);
}
namespace std {
inline size_t model_key(const model_string& s) { return reinterpret_cast<size_t>(s.p); }
template <class K> inline typename std::enable_if<std::is_integral<K>::value || std::is_enum<K>::value, size_t>::type model_key(K k) { return size_t(k); }
template <class A, class B> inline size_t model_key(const std::pair<A, B>& k) { return mm_put(model_key(k.first), model_key(k.second)); }
template <class T> constexpr bool model_plain = std::is_integral<T>::value || std::is_enum<T>::value;
template <class K, class V, bool Known> struct model_table {
    using value_type = std::pair<const K, V>;
    size_t n = 0;
    bool find(const K&, size_t&, value_type*&) const { return false; }
    void take(std::initializer_list<value_type> l, size_t& h) {
        h = mm_made(l.size());
        list(l, h, std::integral_constant<bool, model_plain<typename std::remove_const<K>::type> && model_listed<typename std::remove_const<V>::type>::value>());
    }
    // entries that are lists of numbers are followed
    void list(std::initializer_list<value_type> l, size_t& h, std::true_type) {
#pragma clang loop unroll(full)
        for (auto& e : l) h = mm_put(mm_put(h, size_t(e.first)), model_word(e.second));
    }
    void list(std::initializer_list<value_type>, size_t&, std::false_type) {}
};
template <class K, class V> struct model_table<K, V, true> {
    using value_type = std::pair<const K, V>;
    struct __attribute__((may_alias)) slot { K first; V second; };
    size_t n = 0;
    slot a[10];
    bool find(const K& k, size_t& pos, value_type*& at) const {
        if (!n) return false;
        pos = n;
        at = nullptr;
#pragma clang loop unroll(full)
        for (size_t i = 0; i < 10; ++i)
            if (i < n && a[i].first == k) { pos = i; at = const_cast<value_type*>(reinterpret_cast<const value_type*>(&a[i])); break; }
        return true;
    }
    void take(std::initializer_list<value_type> l, size_t&) {
        for (auto& e : l) { a[n].first = e.first; a[n].second = e.second; ++n; }
    }
};
template <class K, class V> class model_map {
public:
    using key_type = K;
    using mapped_type = V;
    using value_type = std::pair<const K, V>;
    using size_type = size_t;
private:
    size_t h = 0;
    model_table<typename std::remove_const<K>::type, V, model_plain<typename std::remove_const<K>::type> && model_plain<V>> t;
    template <class P> struct iter {
        using iterator_category = std::forward_iterator_tag;
        using value_type = std::pair<const K, V>;
        using difference_type = ptrdiff_t;
        using pointer = P*;
        using reference = P&;
        size_t h, pos;
        P* at;
        P& operator*() const { return *at; }
        P* operator->() const { return at; }
        iter& operator++() { ++pos; at = static_cast<P*>(mm_at(h, pos)); return *this; }
        iter operator++(int) { iter o = *this; ++*this; return o; }
        operator iter<const P>() const { return iter<const P>{h, pos, at}; }
        bool operator==(const iter<const value_type>& o) const { return pos == o.pos; }
        bool operator!=(const iter<const value_type>& o) const { return pos != o.pos; }
    };
    value_type* node(size_t pos) const { return static_cast<value_type*>(mm_at(h, pos)); }
public:
    using iterator = iter<value_type>;
    using const_iterator = iter<const value_type>;
    model_map() {}
    model_map(std::initializer_list<value_type> l) { t.take(l, h); }
    size_t size() const { return t.n ? t.n : mm_size(h); }
    bool empty() const { return size() == 0; }
    void clear() { h = 0; t.n = 0; }
    void reserve(size_t) {}
    iterator begin() { return iterator{h, 0, node(0)}; }
    iterator end() { return iterator{h, size(), nullptr}; }
    const_iterator begin() const { return const_iterator{h, 0, node(0)}; }
    const_iterator end() const { return const_iterator{h, size(), nullptr}; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    iterator find(const K& k) {
        iterator i{h, 0, nullptr};
        if (t.find(k, i.pos, i.at)) return i;
        i.pos = mm_pos(h, model_key(k));
        i.at = node(i.pos);
        return i;
    }
    const_iterator find(const K& k) const { return const_cast<model_map*>(this)->find(k); }
    size_t count(const K& k) const { return find(k) == end() ? 0 : 1; }
    V& at(const K& k) { iterator i = find(k); if (i == end()) mm_missing(); return i->second; }
    const V& at(const K& k) const { return const_cast<model_map*>(this)->at(k); }
    V& operator[](const K& k) {
        iterator i = find(k);
        if (i == end()) {
            h = mm_put(h, model_key(k));
            i = find(k);
            i->second = V();
        }
        return i->second;
    }
    template <class A, class B> std::pair<iterator, bool> emplace(A&& k, B&& v) {
        iterator i = find(k);
        if (i != end()) return {i, false};
        h = mm_put(h, model_key(K(k)));
        i = find(k);
        i->second = V(v);
        return {i, true};
    }
    template <class P> std::pair<iterator, bool> insert(const P& p) { return emplace(p.first, p.second); }
    std::pair<iterator, bool> insert(const value_type& p) { return emplace(p.first, p.second); }
};
template <class I> inline void model_sort(I a, I b) { mv_sort(&*a, size_t(b - a), sizeof(*a)); }
template <class K, class V, class... A> using model_unordered_map = model_map<K, V>;
}
#define map model_map
#define unordered_map model_unordered_map
#define sort model_sort
