#pragma once
// A reference model of the standard text streams and of formatted output.
// Every standard header the library uses is read first, then the names are
// replaced.  What is written is one effect per character of a literal text and
// one effect per formatted value, whether it is written through a stream or
// through printf; a conversion that does not fit its argument is the effect
// ms_bad, which no reference program has.
#include <algorithm>
#include <array>
#include <bitset>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <vector>
#ifdef MS_TEXT_VIEW
#include "model_text.h"
#else
#include "model_string.h"
#endif
extern "C" {
void ms_char(size_t f, char c);
void ms_str(size_t f, const char* s);                   // text up to the NUL
void ms_text(size_t f, const char* s, size_t n);
void ms_quoted(size_t f, const char* s);                // the inside of a quoted text, escaped
void ms_int(size_t f, long v, int base);
void ms_uint(size_t f, unsigned long v, int base);
void ms_real(size_t f, double v, long precision, int format);
void ms_lreal(size_t f, long double v, long precision, int format);
void ms_pointer(size_t f, const void* p);
void ms_pad(size_t f, long width, char fill);           // of the value that follows
void ms_bad(int what);
size_t str_file(const char* name) STR_TERM;              // which file
bool ms_opens(size_t f, int how);                       // 0 reading, 1 new contents, 2 append, 3 keep contents
bool ms_close(size_t f);
bool ms_get_int(size_t f, void* to, int size);
bool ms_get_uint(size_t f, void* to, int size);
bool ms_get_real(size_t f, void* to, int size);
bool ms_get_char(size_t f, char* to);
bool ms_get_word(size_t f, const char** to);
bool ms_get_line(size_t f, const char** to, char delimiter);
const char* ms_next_word(size_t f);
long ms_next_int(size_t f, int size);
unsigned long ms_next_uint(size_t f, int size);
double ms_next_real(size_t f, int size);
bool ms_ignore(size_t f, long n, int delimiter);
long ms_tell(size_t f);
bool ms_seek(size_t f, long pos, int dir);
bool ms_space(size_t f);
bool ms_broken(size_t f);                               // a failure is one of the device
void ms_set(size_t f, const char* content);             // a stream over a text
size_t ms_fresh();
const char* ms_content(size_t f);
}
#ifndef MS_NO_FAILURE
#define MS_NO_FAILURE false
#endif

namespace std {
struct model_ios {
    using char_type = char;
    using pos_type = std::ios::pos_type;
    using off_type = std::ios::off_type;
    using openmode = std::ios_base::openmode;
    using fmtflags = std::ios_base::fmtflags;
    static constexpr openmode binary = std::ios_base::binary, in = std::ios_base::in, out = std::ios_base::out, ate = std::ios_base::ate, trunc = std::ios_base::trunc, app = std::ios_base::app;
    static constexpr std::ios_base::seekdir beg = std::ios_base::beg, end = std::ios_base::end, cur = std::ios_base::cur;
    static constexpr fmtflags dec = std::ios_base::dec, hex = std::ios_base::hex, oct = std::ios_base::oct, basefield = std::ios_base::basefield,
        fixed = std::ios_base::fixed, scientific = std::ios_base::scientific, floatfield = std::ios_base::floatfield, boolalpha = std::ios_base::boolalpha;
#ifdef MS_ONE_STREAM            // the program has one stream, which never fails
    struct one_id { operator size_t() const { return 7; } one_id& operator=(size_t) { return *this; } };
    struct one_ok { operator bool() const { return true; } one_ok& operator=(bool) { return *this; } };
#else
    using one_id = size_t;
    struct one_ok { bool b = true; operator bool() const { return b; } one_ok& operator=(bool x) { b = x; return *this; } };
#endif
    struct state {
        one_id id;
        one_ok ok;
        int base = 10, format = 0;
        bool names = false;
        long precision = 6, width = 0;
        char fill = ' ';
    };
};
struct model_iobase : model_ios {
    state s;
    explicit model_iobase(size_t f) { s.id = f; }
    model_iobase(const model_iobase&) = delete;
    bool good() const { return s.ok; }
    bool fail() const { return !s.ok; }
    bool bad() const { return !s.ok && ms_broken(s.id); }
    bool eof() const { return !s.ok; }
    explicit operator bool() const { return s.ok; }
    bool operator!() const { return !s.ok; }
    void clear() { s.ok = true; }
    void setstate(std::ios_base::iostate x) { if (x != std::ios_base::goodbit) s.ok = false; }
    long precision() const { return s.precision; }
    long precision(long p) { long o = s.precision; s.precision = p; return o; }
    long width() const { return s.width; }
    long width(long p) { long o = s.width; s.width = p; return o; }
    char fill() const { return s.fill; }
    char fill(char c) { char o = s.fill; s.fill = c; return o; }
    struct flag { int base, format; bool names; };
    flag flags() const { return flag{s.base, s.format, s.names}; }
    flag flags(flag f) { flag o = flags(); s.base = f.base; s.format = f.format; s.names = f.names; return o; }
    void setf(fmtflags f) {
        if (f & std::ios_base::dec) s.base = 10;
        if (f & std::ios_base::hex) s.base = 16;
        if (f & std::ios_base::fixed) s.format = 1;
        if (f & std::ios_base::scientific) s.format = 2;
        if (f & std::ios_base::boolalpha) s.names = true;
    }
    void setf(fmtflags f, fmtflags) { setf(f); }
};
struct model_quote { const char* p; };
struct model_ostream : model_iobase {
    explicit model_ostream(size_t f) : model_iobase(f) {}
    void pad() { if (s.width > 0) ms_pad(s.id, s.width, s.fill); s.width = 0; }
    void chars(const char* p) { ms_str(s.id, p); }
    template <class T> model_ostream& signed_(T v) {
        if (s.base != 10) return unsigned_(typename std::make_unsigned<T>::type(v));
        pad();
        ms_int(s.id, v, 10);
        return *this;
    }
    model_ostream& unsigned_(unsigned long v) { pad(); ms_uint(s.id, v, s.base); return *this; }
    model_ostream& operator<<(short v) { return signed_(v); }
    model_ostream& operator<<(int v) { return signed_(v); }
    model_ostream& operator<<(long v) { return signed_(v); }
    model_ostream& operator<<(long long v) { return signed_(v); }
    model_ostream& operator<<(unsigned short v) { return signed_(int(v)); }
    model_ostream& operator<<(unsigned int v) { return unsigned_(v); }
    model_ostream& operator<<(unsigned long v) { return unsigned_(v); }
    model_ostream& operator<<(unsigned long long v) { return unsigned_(v); }
    model_ostream& operator<<(bool v) { if (s.names) { pad(); chars(v ? "true" : "false"); return *this; } return signed_(int(v)); }
    model_ostream& operator<<(float v) { pad(); ms_real(s.id, v, s.precision, s.format); return *this; }
    model_ostream& operator<<(double v) { pad(); ms_real(s.id, v, s.precision, s.format); return *this; }
    model_ostream& operator<<(long double v) { pad(); ms_lreal(s.id, v, s.precision, s.format); return *this; }
    model_ostream& operator<<(const void* v) { pad(); ms_pointer(s.id, v); return *this; }
    model_ostream& operator<<(model_ostream& (*m)(model_ostream&)) { return m(*this); }
    model_ostream& operator<<(model_iobase& (*m)(model_iobase&)) { m(*this); return *this; }
    model_ostream& write(const char* p, long n) { ms_text(s.id, p, n); return *this; }
    model_ostream& put(char c) { ms_char(s.id, c); return *this; }
    model_ostream& model_flush() { return *this; }
    long tellp() { return ms_tell(s.id); }
    model_ostream& seekp(long p) { if (!ms_seek(s.id, p, 0)) s.ok = false; return *this; }
    model_ostream& seekp(long p, std::ios_base::seekdir d) { if (!ms_seek(s.id, p, d)) s.ok = false; return *this; }
};
inline model_ostream& operator<<(model_ostream& o, char c) { o.pad(); ms_char(o.s.id, c); return o; }
inline model_ostream& operator<<(model_ostream& o, signed char c) { return o << char(c); }
inline model_ostream& operator<<(model_ostream& o, unsigned char c) { return o << char(c); }
inline model_ostream& operator<<(model_ostream& o, const char* p) { o.pad(); o.chars(p); return o; }
inline model_ostream& operator<<(model_ostream& o, const model_string& p) { o.pad(); o.chars(p.p); return o; }
inline model_ostream& operator<<(model_ostream& o, model_quote q) {
    o.pad();
    ms_char(o.s.id, '"');
    ms_quoted(o.s.id, q.p);
    ms_char(o.s.id, '"');
    return o;
}
inline model_quote model_quoted(const char* p) { return model_quote{p}; }
inline model_quote model_quoted(const model_string& p) { return model_quote{p.p}; }
inline model_ostream& model_endl(model_ostream& o) { o.pad(); ms_char(o.s.id, '\n'); return o; }
inline model_ostream& model_flush(model_ostream& o) { return o; }
inline model_iobase& model_hex(model_iobase& o) { o.s.base = 16; return o; }
inline model_iobase& model_dec(model_iobase& o) { o.s.base = 10; return o; }
inline model_iobase& model_fixed(model_iobase& o) { o.s.format = 1; return o; }
inline model_iobase& model_scientific(model_iobase& o) { o.s.format = 2; return o; }
inline model_iobase& model_defaultfloat(model_iobase& o) { o.s.format = 0; return o; }
inline model_iobase& model_boolalpha(model_iobase& o) { o.s.names = true; return o; }
struct model_w { long n; };
struct model_f { char c; };
struct model_p { long n; };
inline model_w model_setw(long n) { return model_w{n}; }
inline model_f model_setfill(char c) { return model_f{c}; }
inline model_p model_setprecision(long n) { return model_p{n}; }
inline model_ostream& operator<<(model_ostream& o, model_w w) { o.s.width = w.n; return o; }
inline model_ostream& operator<<(model_ostream& o, model_f w) { o.s.fill = w.c; return o; }
inline model_ostream& operator<<(model_ostream& o, model_p w) { o.s.precision = w.n; return o; }
// the console starts every statement in the default format
inline model_ostream& model_console(size_t f, model_ostream&& o) { o.s.id = f; return o; }

struct model_istream : model_iobase {
    explicit model_istream(size_t f) : model_iobase(f) {}
    void took(bool b) { if (!b && !MS_NO_FAILURE) s.ok = false; }
    template <class T> model_istream& number(T& x) {
#ifdef MS_ONE_STREAM
        x = std::is_floating_point<T>::value ? (T)ms_next_real(s.id, sizeof(T)) : std::is_signed<T>::value ? (T)ms_next_int(s.id, sizeof(T)) : (T)ms_next_uint(s.id, sizeof(T));
#else
        if (s.ok) took(std::is_floating_point<T>::value ? ms_get_real(s.id, &x, sizeof(T)) : std::is_signed<T>::value ? ms_get_int(s.id, &x, sizeof(T)) : ms_get_uint(s.id, &x, sizeof(T)));
#endif
        return *this;
    }
    model_istream& operator>>(short& x) { return number(x); }
    model_istream& operator>>(unsigned short& x) { return number(x); }
    model_istream& operator>>(int& x) { return number(x); }
    model_istream& operator>>(unsigned& x) { return number(x); }
    model_istream& operator>>(long& x) { return number(x); }
    model_istream& operator>>(unsigned long& x) { return number(x); }
    model_istream& operator>>(long long& x) { return number(x); }
    model_istream& operator>>(unsigned long long& x) { return number(x); }
    model_istream& operator>>(bool& x) { return number(x); }
    model_istream& operator>>(float& x) { return number(x); }
    model_istream& operator>>(double& x) { return number(x); }
    model_istream& operator>>(long double& x) { return number(x); }
    model_istream& operator>>(model_istream& (*m)(model_istream&)) { return m(*this); }
    model_istream& operator>>(model_iobase& (*m)(model_iobase&)) { m(*this); return *this; }
    model_istream& ignore(long n = 1, int d = -1) { if (s.ok) took(ms_ignore(s.id, n, d)); return *this; }
    long tellg() { return s.ok ? ms_tell(s.id) : -1; }
    model_istream& seekg(long p) { if (s.ok) took(ms_seek(s.id, p, 0)); return *this; }
    model_istream& seekg(long p, std::ios_base::seekdir d) { if (s.ok) took(ms_seek(s.id, p, d)); return *this; }
};
inline model_istream& operator>>(model_istream& i, char& c) { if (i.s.ok) i.took(ms_get_char(i.s.id, &c)); return i; }
#ifdef MS_ONE_STREAM
inline model_istream& operator>>(model_istream& i, model_string& c) { c.p = ms_next_word(i.s.id); return i; }
#else
inline model_istream& operator>>(model_istream& i, model_string& c) { if (i.s.ok) i.took(ms_get_word(i.s.id, &c.p)); return i; }
#endif
inline model_istream& model_getline(model_istream& i, model_string& c, char d = '\n') { if (i.s.ok) i.took(ms_get_line(i.s.id, &c.p, d)); return i; }
inline model_istream& model_ws(model_istream& i) { if (i.s.ok) ms_space(i.s.id); return i; }
extern model_istream model_cin;

inline int model_how(std::ios_base::openmode m, bool w) { return !w ? 0 : (m & std::ios_base::app) ? 2 : (m & std::ios_base::in) && !(m & std::ios_base::trunc) ? 3 : 1; }
struct model_ofstream : model_ostream {
    bool opened;
    model_ofstream() : model_ostream(0), opened(false) {}
    explicit model_ofstream(const char* f, openmode m = out) : model_ostream(str_file(f)), opened(false) { start(m); }
    explicit model_ofstream(const model_string& f, openmode m = out) : model_ofstream(f.c_str(), m) {}
    void start(openmode m) { opened = ms_opens(s.id, model_how(m, true)) || MS_NO_FAILURE; if (!opened) s.ok = false; }
    void open(const char* f, openmode m = out) { s.id = str_file(f); start(m); }
    void open(const model_string& f, openmode m = out) { open(f.c_str(), m); }
    bool is_open() const { return opened; }
    void close() { if (opened) { opened = false; if (!ms_close(s.id) && !MS_NO_FAILURE) s.ok = false; } else s.ok = false; }
    ~model_ofstream() { if (opened) ms_close(s.id); }
};
struct model_ifstream : model_istream {
    bool opened;
    model_ifstream() : model_istream(0), opened(false) {}
    explicit model_ifstream(const char* f, openmode m = in) : model_istream(str_file(f)), opened(false) { start(m); }
    explicit model_ifstream(const model_string& f, openmode m = in) : model_ifstream(f.c_str(), m) {}
    void start(openmode m) { opened = ms_opens(s.id, 0) || MS_NO_FAILURE; if (!opened) s.ok = false; }
    void open(const char* f, openmode m = in) { s.id = str_file(f); start(m); }
    void open(const model_string& f, openmode m = in) { open(f.c_str(), m); }
    bool is_open() const { return opened; }
    void close() { if (opened) { opened = false; if (!ms_close(s.id) && !MS_NO_FAILURE) s.ok = false; } else s.ok = false; }
    ~model_ifstream() { if (opened) ms_close(s.id); }
};
struct model_stringstream : model_istream, model_ostream {
    using model_istream::s;
    model_stringstream() : model_istream(ms_fresh()), model_ostream(model_istream::s.id) {}
    explicit model_stringstream(const model_string& t) : model_stringstream() { ms_set(model_istream::s.id, t.p); }
    explicit operator bool() const { return model_istream::s.ok; }
    bool operator!() const { return !model_istream::s.ok; }
    model_string str() const { return ms_content(model_istream::s.id); }
};
struct model_istringstream : model_istream {
    explicit model_istringstream(const model_string& t) : model_istream(ms_fresh()) { ms_set(s.id, t.p); }
};
struct model_ostringstream : model_ostream {
    model_ostringstream() : model_ostream(ms_fresh()) {}
    model_string str() const { return ms_content(s.id); }
};

// formatted output: the conversion must name the argument's own type
enum { model_stdout = 1, model_stderr = 2 };
template <class A> inline void model_number(size_t out, char c, int longs, int halves, A, long, std::false_type) { ms_bad(c); }
template <class A> inline void model_number(size_t out, char c, int longs, int halves, A a, long precision, std::true_type) {
    using F = std::is_floating_point<A>;
    const bool isint = c == 'd' || c == 'i', isuint = c == 'u' || c == 'x' || c == 'X' || c == 'o', isreal = c == 'g' || c == 'f' || c == 'e';
    const int size = longs >= 1 ? 8 : halves == 1 ? 2 : halves >= 2 ? 1 : 4;
    if (c == 'c') { if (sizeof(A) > 4 || F::value) ms_bad(c); else ms_char(out, char(a)); }
    else if (isreal) {
        if (!F::value || (longs == 3) != (sizeof(A) == 16) || halves || longs == 1 || longs == 2) ms_bad(c);
        else if (sizeof(A) == 16) ms_lreal(out, a, precision < 0 ? 6 : precision, c == 'g' ? 0 : c == 'f' ? 1 : 2);
        else ms_real(out, a, precision < 0 ? 6 : precision, c == 'g' ? 0 : c == 'f' ? 1 : 2);
    }
    else if (isint) { if (F::value || (!std::is_signed<A>::value && sizeof(A) >= 4) || longs == 3 || sizeof(A) > size || (sizeof(A) == 8 && size != 8) || (size == 8 && sizeof(A) != 8)) ms_bad(c); else ms_int(out, long(a), 10); }
    else if (isuint) { if (F::value || longs == 3 || sizeof(A) > size || (c == 'u' && std::is_signed<A>::value) || (size == 8 && sizeof(A) != 8)) ms_bad(c); else if (sizeof(A) < 4 && c == 'u') ms_int(out, long(a), 10); else ms_uint(out, (unsigned long)(a), c == 'u' ? 10 : c == 'o' ? 8 : 16); }
    else ms_bad(c);
}
template <class A> inline void model_one(size_t out, char c, int longs, int halves, const A& a, long precision) { model_number(out, c, longs, halves, a, precision, std::is_arithmetic<A>()); }
inline void model_one(size_t out, char c, int longs, int halves, const char* a, long) { if (c == 's' && !longs && !halves) ms_str(out, a); else ms_bad(c); }
inline void model_one(size_t out, char c, int longs, int halves, char* a, long p) { model_one(out, c, longs, halves, (const char*)a, p); }
inline void model_one(size_t out, char c, int longs, int halves, const void* a, long) { if (c == 'p' && !longs && !halves) ms_pointer(out, a); else ms_bad(c); }
inline void model_one(size_t out, char c, int longs, int halves, void* a, long p) { model_one(out, c, longs, halves, (const void*)a, p); }
inline void model_pick(size_t, int, char c, int, int, long) { ms_bad(c); }
template <class A, class... R> inline void model_pick(size_t out, int k, char c, int longs, int halves, long precision, const A& a, const R&... r) {
    if (k == 0) model_one(out, c, longs, halves, a, precision);
    else model_pick(out, k - 1, c, longs, halves, precision, r...);
}
template <class... A> inline int model_fprintf(size_t out, const char* f, A... a) {
    bool in = false, dot = false;
    int k = 0, longs = 0, halves = 0;
    long width = 0, precision = -1;
    char fill = ' ';
    const size_t n = __builtin_strlen(f);
    for (size_t i = 0; i < n; ++i) {
        const char c = f[i];
        if (!in) {
            if (c == '%') { in = true; dot = false; longs = halves = 0; width = 0; precision = -1; fill = ' '; }
            else ms_char(out, c);
        }
        else if (c == '%') { ms_char(out, c); in = false; }
        else if (c == '.') { dot = true; precision = 0; }
        else if (c == '0' && !dot && !width) fill = '0';
        else if (c >= '0' && c <= '9') { if (dot) precision = precision * 10 + (c - '0'); else width = width * 10 + (c - '0'); }
        else if (c == 'l') ++longs;
        else if (c == 'h') ++halves;
        else if (c == 'z' || c == 't' || c == 'j') longs = 1;
        else if (c == 'L') longs = 3;
        else {
            if (width) ms_pad(out, width, fill);
            model_pick(out, k, c, longs, halves, precision, a...);
            ++k;
            in = false;
        }
    }
    if (in || k != int(sizeof...(A))) ms_bad(1);
    return 0;
}
template <class... A> inline int model_printf(const char* f, A... a) { return model_fprintf(model_stdout, f, a...); }
template <class... A> inline int model_fprintf(FILE* o, const char* f, A... a) { return model_fprintf(size_t(o), f, a...); }
inline int model_puts(const char* p) { ms_str(model_stdout, p); ms_char(model_stdout, '\n'); return 0; }
inline int model_fputs(const char* p, FILE* o) { ms_str(size_t(o), p); return 0; }
inline int model_putchar(int c) { ms_char(model_stdout, char(c)); return 0; }
inline int model_fputc(int c, FILE* o) { ms_char(size_t(o), char(c)); return 0; }
inline size_t model_fwrite(const void* p, size_t k, size_t n, FILE* o) { ms_text(size_t(o), (const char*)p, k * n); return n; }
inline int model_fflush(FILE*) { return 0; }
}
using std::model_printf;
using std::model_puts;
using std::model_fflush;
using std::model_fwrite;
using std::model_fputc;
using std::model_fputs;
using std::model_fprintf;
using std::model_putchar;
#define ostream model_ostream
#define istream model_istream
#define ofstream model_ofstream
#define ifstream model_ifstream
#define stringstream model_stringstream
#define istringstream model_istringstream
#define ostringstream model_ostringstream
#define cerr model_console(2, std::model_ostream(2))
#define cout model_console(1, std::model_ostream(1))
#define clog model_console(2, std::model_ostream(2))
#define cin model_cin
#define endl model_endl

#define flush model_flush
#define hex model_hex
#define dec model_dec
#define fixed model_fixed
#define scientific model_scientific
#define defaultfloat model_defaultfloat
#define boolalpha model_boolalpha
#define setw model_setw
#define setfill model_setfill
#define setprecision model_setprecision
#define quoted model_quoted
#define getline model_getline
#define ws model_ws
#define printf model_printf
#define puts model_puts
#define putchar model_putchar

#define fprintf model_fprintf
#define fputs model_fputs
#define fputc model_fputc
#define fwrite model_fwrite
#define fflush model_fflush
#define putc model_fputc
#undef stdout
#undef stderr
#define stdout ((FILE*)1)
#define stderr ((FILE*)2)
#define string model_string
#define to_string model_to_string
#define stoi model_stoi
#define stol model_stol
#define stoul model_stoul
#define stod model_stod
