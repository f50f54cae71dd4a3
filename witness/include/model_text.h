#pragma once
// A reference model of std::string that knows its characters: a view of n
// characters at p.  Searching and comparing are loops over them (decided by the
// optimiser when the characters are known); joined texts are opaque terms.
#include <string>
#include <cstring>
#include <functional>
#define TX_EACH _Pragma("clang loop unroll(full)")
const std::basic_string<char>& str_std(const char* a, size_t n) __attribute__((const, nothrow));
extern "C" {
#define STR_TERM __attribute__((const, nothrow))
const char* str_join(const char* a, size_t n, const char* b, size_t m) STR_TERM;
const char* str_fill(size_t n, char c) STR_TERM;
const char* str_int(long v) STR_TERM;
const char* str_real(double v) STR_TERM;
size_t str_file(const char* name) STR_TERM;
size_t str_hash(const char* a, size_t n) STR_TERM;
void str_range();
}
namespace std {
struct model_string {
    const char* p;
    size_t n;
    using value_type = char;
    using size_type = size_t;
    using const_iterator = const char*;
    using iterator = const char*;
    using const_reverse_iterator = std::reverse_iterator<const char*>;
    static constexpr size_t npos = size_t(-1);
    model_string() : p(""), n(0) {}
    model_string(const char* s) : p(s), n(__builtin_strlen(s)) {}
    model_string(const char* s, size_t k) : p(s), n(k) {}
    model_string(size_t k, char c) : p(str_fill(k, c)), n(k) {}
    template <class I, class = typename std::enable_if<!std::is_integral<I>::value>::type> model_string(I a, I b) : p(&*a), n(size_t(b - a)) {}
    model_string(const model_string&) = default;
    model_string& operator=(const model_string&) = default;
    operator const std::basic_string<char>&() const { return str_std(p, n); }
    const char* c_str() const { return p; }
    const char* data() const { return p; }
    size_t size() const { return n; }
    size_t length() const { return n; }
    bool empty() const { return n == 0; }
    void clear() { n = 0; }
    const char& operator[](size_t i) const { return p[i]; }
    const char& at(size_t i) const { if (i >= n) str_range(); return p[i]; }
    const char& front() const { return p[0]; }
    const char& back() const { return p[n - 1]; }
    const_iterator begin() const { return p; }
    const_iterator end() const { return p + n; }
    const_iterator cbegin() const { return p; }
    const_iterator cend() const { return p + n; }
    const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); }
    const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    model_string& operator+=(const model_string& s) { p = str_join(p, n, s.p, s.n); n += s.n; return *this; }
    model_string& operator+=(char c) { return *this += model_string(str_fill(1, c), 1); }
    model_string& append(const model_string& s) { return *this += s; }
    void push_back(char c) { *this += c; }
    model_string substr(size_t pos = 0, size_t k = npos) const { if (pos > n) str_range(); return model_string(p + pos, k < n - pos ? k : n - pos); }
    static bool same(const char* a, const char* b, size_t k) { TX_EACH for (size_t i = 0; i < k; ++i) if (a[i] != b[i]) return false; return true; }
    size_t find(const model_string& s, size_t pos = 0) const { TX_EACH for (size_t i = pos; i + s.n <= n; ++i) if (same(p + i, s.p, s.n)) return i; return npos; }
    size_t find(char c, size_t pos = 0) const { TX_EACH for (size_t i = pos; i < n; ++i) if (p[i] == c) return i; return npos; }
    size_t rfind(const model_string& s, size_t pos = npos) const { if (s.n > n) return npos; TX_EACH for (size_t i = (pos < n - s.n ? pos : n - s.n) + 1; i-- > 0;) if (same(p + i, s.p, s.n)) return i; return npos; }
    size_t rfind(char c, size_t pos = npos) const { if (!n) return npos; TX_EACH for (size_t i = (pos < n - 1 ? pos : n - 1) + 1; i-- > 0;) if (p[i] == c) return i; return npos; }
    static bool in(char c, const model_string& s) { TX_EACH for (size_t i = 0; i < s.n; ++i) if (s.p[i] == c) return true; return false; }
    size_t find_first_of(const model_string& s, size_t pos = 0) const { TX_EACH for (size_t i = pos; i < n; ++i) if (in(p[i], s)) return i; return npos; }
    size_t find_first_of(char c, size_t pos = 0) const { return find(c, pos); }
    size_t find_last_of(const model_string& s, size_t pos = npos) const { if (!n) return npos; TX_EACH for (size_t i = (pos < n - 1 ? pos : n - 1) + 1; i-- > 0;) if (in(p[i], s)) return i; return npos; }
    size_t find_last_of(char c, size_t pos = npos) const { return rfind(c, pos); }
    int compare(const model_string& s) const { TX_EACH for (size_t i = 0; i < n && i < s.n; ++i) if (p[i] != s.p[i]) return (unsigned char)p[i] < (unsigned char)s.p[i] ? -1 : 1; return n < s.n ? -1 : n > s.n; }
    int compare(size_t pos, size_t k, const model_string& s) const { return substr(pos, k).compare(s); }
};
inline bool operator==(const model_string& a, const model_string& b) { return a.n == b.n && model_string::same(a.p, b.p, a.n); }
inline bool operator!=(const model_string& a, const model_string& b) { return !(a == b); }
inline bool operator<(const model_string& a, const model_string& b) { return a.compare(b) < 0; }
inline model_string operator+(const model_string& a, const model_string& b) { return model_string(str_join(a.p, a.n, b.p, b.n), a.n + b.n); }
inline model_string operator+(const model_string& a, const char* b) { return a + model_string(b); }
inline model_string operator+(const char* a, const model_string& b) { return model_string(a) + b; }
inline model_string operator+(const model_string& a, char b) { return a + model_string(1, b); }
inline model_string model_to_string(long v) { return model_string(str_int(v), 1); }
inline model_string model_to_string(unsigned long v) { return model_string(str_int(v), 1); }
inline model_string model_to_string(int v) { return model_string(str_int(v), 1); }
inline model_string model_to_string(unsigned v) { return model_string(str_int(v), 1); }
inline model_string model_to_string(double v) { return model_string(str_real(v), 1); }
inline int model_stoi(const model_string&);
inline long model_stol(const model_string&);
inline unsigned long model_stoul(const model_string&);
inline double model_stod(const model_string&);
template <> struct hash<model_string> { size_t operator()(const model_string& s) const { return str_hash(s.p, s.n); } };
}
