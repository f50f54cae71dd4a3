#pragma once
// A reference model of std::string: a text is the pointer to its first
// character and every operation is a function of such texts without effects.
// Nothing here is executed; equal operations on equal texts are equal terms.
#include <string>
#include <cstring>
#include <functional>
#include <iterator>
extern "C" {
#define STR_TERM __attribute__((const, nothrow))
size_t str_len(const char* a) STR_TERM;
const char* str_cat(const char* a, const char* b) STR_TERM;
const char* str_push(const char* a, char c) STR_TERM;
const char* str_fill(size_t n, char c) STR_TERM;
const char* str_first(const char* a, size_t n) STR_TERM;               // the n characters at a
const char* str_sub(const char* a, size_t pos, size_t n) STR_TERM;
char str_at(const char* a, size_t i) STR_TERM;
bool str_eq(const char* a, const char* b) STR_TERM;
int str_cmp(const char* a, const char* b) STR_TERM;
size_t str_find(const char* a, const char* b, size_t pos) STR_TERM;
size_t str_rfind(const char* a, const char* b, size_t pos) STR_TERM;
size_t str_find_char(const char* a, char c, size_t pos) STR_TERM;
size_t str_rfind_char(const char* a, char c, size_t pos) STR_TERM;
const char* str_int(long v) STR_TERM;
const char* str_uint(unsigned long v) STR_TERM;
const char* str_real(double v) STR_TERM;
long str_to_int(const char* a) STR_TERM;
double str_to_real(const char* a) STR_TERM;
const char* str_erase(const char* a, size_t pos, size_t n) STR_TERM;
const char* str_insert(const char* a, size_t pos, const char* b) STR_TERM;
size_t str_first_of(const char* a, const char* b, size_t pos) STR_TERM;
size_t str_first_not_of(const char* a, const char* b, size_t pos) STR_TERM;
size_t str_last_not_of(const char* a, const char* b, size_t pos) STR_TERM;
size_t str_hash(const char* a) STR_TERM;
}
namespace std {
struct model_string {
    const char* p;
    using value_type = char;
    using size_type = size_t;
    using const_iterator = const char*;
    static constexpr size_t npos = size_t(-1);
    model_string() : p("") {}
    model_string(const char* s) : p(s) {}
    model_string(const char* s, size_t n) : p(str_first(s, n)) {}
    model_string(size_t n, char c) : p(str_fill(n, c)) {}
    model_string(const model_string&) = default;
    model_string(model_string&& o) : p(o.p) {}
    model_string& operator=(const model_string&) = default;
    model_string& operator=(model_string&& o) { p = o.p; return *this; }
    model_string& operator=(const char* s) { p = s; return *this; }
    operator std::basic_string<char>() const { return std::basic_string<char>(p); }
    const char* c_str() const { return p; }
    const char* data() const { return p; }
    size_t size() const { return str_len(p); }
    size_t length() const { return str_len(p); }
    bool empty() const { return str_len(p) == 0; }
    void clear() { p = ""; }
    char operator[](size_t i) const { return str_at(p, i); }
    char at(size_t i) const { return str_at(p, i); }
    char front() const { return str_at(p, 0); }
    char back() const { return str_at(p, str_len(p) - 1); }
    const_iterator begin() const { return p; }
    const_iterator end() const { return p + str_len(p); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    std::reverse_iterator<const_iterator> rbegin() const { return std::reverse_iterator<const_iterator>(end()); }
    std::reverse_iterator<const_iterator> rend() const { return std::reverse_iterator<const_iterator>(begin()); }
    std::reverse_iterator<const_iterator> crbegin() const { return rbegin(); }
    std::reverse_iterator<const_iterator> crend() const { return rend(); }
    void reserve(size_t = 0) {}
    void swap(model_string& o) { const char* q = p; p = o.p; o.p = q; }
    model_string& assign(const model_string& s) { p = s.p; return *this; }
    model_string& append(const char* s) { return *this += s; }
    model_string& append(const char* s, size_t n) { p = str_cat(p, str_first(s, n)); return *this; }
    model_string& append(size_t n, char c) { p = str_cat(p, str_fill(n, c)); return *this; }
    void pop_back() { p = str_erase(p, str_len(p) - 1, 1); }
    model_string& erase(size_t pos = 0, size_t n = npos) { p = str_erase(p, pos, n); return *this; }
    model_string& insert(size_t pos, const model_string& s) { p = str_insert(p, pos, s.p); return *this; }
    model_string& insert(size_t pos, const char* s) { p = str_insert(p, pos, s); return *this; }
    model_string& replace(size_t pos, size_t n, const model_string& s) { p = str_insert(str_erase(p, pos, n), pos, s.p); return *this; }
    size_t find_first_of(const char* s, size_t pos = 0) const { return str_first_of(p, s, pos); }
    size_t find_first_not_of(const char* s, size_t pos = 0) const { return str_first_not_of(p, s, pos); }
    size_t find_last_not_of(const char* s, size_t pos = npos) const { return str_last_not_of(p, s, pos); }
    model_string& operator+=(const model_string& s) { p = str_cat(p, s.p); return *this; }
    model_string& operator+=(const char* s) { p = str_cat(p, s); return *this; }
    model_string& operator+=(char c) { p = str_push(p, c); return *this; }
    model_string& append(const model_string& s) { return *this += s; }
    void push_back(char c) { p = str_push(p, c); }
    model_string substr(size_t pos = 0, size_t n = npos) const { return model_string(str_sub(p, pos, n)); }
    size_t find(const model_string& s, size_t pos = 0) const { return str_find(p, s.p, pos); }
    size_t find(const char* s, size_t pos = 0) const { return str_find(p, s, pos); }
    size_t find(char c, size_t pos = 0) const { return str_find_char(p, c, pos); }
    size_t find_first_of(char c, size_t pos = 0) const { return str_find_char(p, c, pos); }
    size_t rfind(const model_string& s, size_t pos = npos) const { return str_rfind(p, s.p, pos); }
    size_t rfind(const char* s, size_t pos = npos) const { return str_rfind(p, s, pos); }
    size_t rfind(char c, size_t pos = npos) const { return str_rfind_char(p, c, pos); }
    size_t find_last_of(char c, size_t pos = npos) const { return str_rfind_char(p, c, pos); }
    size_t find_last_of(const char* s, size_t pos = npos) const { return str_rfind_char(p, s[0], pos); }  // one character
    int compare(const model_string& s) const { return str_cmp(p, s.p); }
    int compare(const char* s) const { return str_cmp(p, s); }
    int compare(size_t pos, size_t n, const char* s) const { return str_cmp(str_sub(p, pos, n), s); }
    int compare(size_t pos, size_t n, const model_string& s) const { return str_cmp(str_sub(p, pos, n), s.p); }
};
inline bool operator==(const model_string& a, const model_string& b) { return str_eq(a.p, b.p); }
inline bool operator==(const model_string& a, const char* b) { return str_eq(a.p, b); }
inline bool operator==(const char* a, const model_string& b) { return str_eq(b.p, a); }
inline bool operator!=(const model_string& a, const model_string& b) { return !str_eq(a.p, b.p); }
inline bool operator!=(const model_string& a, const char* b) { return !str_eq(a.p, b); }
inline bool operator!=(const char* a, const model_string& b) { return !str_eq(b.p, a); }
inline bool operator>(const model_string& a, const model_string& b) { return str_cmp(a.p, b.p) > 0; }
inline bool operator<=(const model_string& a, const model_string& b) { return str_cmp(a.p, b.p) <= 0; }
inline bool operator>=(const model_string& a, const model_string& b) { return str_cmp(a.p, b.p) >= 0; }
inline bool operator<(const model_string& a, const model_string& b) { return str_cmp(a.p, b.p) < 0; }
inline model_string operator+(const model_string& a, const model_string& b) { return model_string(str_cat(a.p, b.p)); }
inline model_string operator+(const model_string& a, const char* b) { return model_string(str_cat(a.p, b)); }
inline model_string operator+(const char* a, const model_string& b) { return model_string(str_cat(a, b.p)); }
inline model_string operator+(const model_string& a, char b) { return model_string(str_push(a.p, b)); }
inline model_string model_to_string(int v) { return model_string(str_int(v)); }
inline model_string model_to_string(long v) { return model_string(str_int(v)); }
inline model_string model_to_string(long long v) { return model_string(str_int(v)); }
inline model_string model_to_string(unsigned v) { return model_string(str_uint(v)); }
inline model_string model_to_string(unsigned long v) { return model_string(str_uint(v)); }
inline model_string model_to_string(unsigned long long v) { return model_string(str_uint(v)); }
inline model_string model_to_string(double v) { return model_string(str_real(v)); }
inline model_string model_to_string(float v) { return model_string(str_real(v)); }
inline int model_stoi(const model_string& s) { return int(str_to_int(s.p)); }
inline long model_stol(const model_string& s) { return str_to_int(s.p); }
inline unsigned long model_stoul(const model_string& s) { return str_to_int(s.p); }
inline double model_stod(const model_string& s) { return str_to_real(s.p); }
template <> struct hash<model_string> { size_t operator()(const model_string& s) const { return str_hash(s.p); } };
}
