//@ preamble
#define MS_NO_FAILURE true
#include "model_stream.h"
#include <GTMesh/Debug/ConsoleLogger.h>
#include <GTMesh/Debug/HTMLLogger.h>
#define EX extern "C"
struct E { long x; };
EX void visit(size_t f, long e);
inline void PrintTo(const E& e, std::ostream& o) { visit(o.s.id, e.x); }
inline void PrintTo(const E& e) { visit(1, e.x); }
struct Sink {
    size_t f;
    const Sink& operator<<(const char* s) const { ms_str(f, s); return *this; }
    const Sink& operator<<(const std::string& s) const { ms_str(f, s.c_str()); return *this; }
    const Sink& operator<<(int s) const { ms_int(f, s, 10); return *this; }
    const Sink& operator<<(const E& e) const { visit(f, e.x); return *this; }
};
//@ section console argmem=@(visit|ms_.*)$
#define ARGS bool color, bool function, bool bare, bool once, const std::string& ident, int line, const char* fn, const char* file, const char* n1, const E& e1, const char* n2, const E& e2, const char* n3, const E& e3
#define SET ConsoleLogger l; l.setColoredOutput(color); l.setPrintFunction(function); l.setOnlyFliename(bare); l.setPrintAggregated(once); l.setIdentation(ident);
struct Con {
    bool color, function, bare, once;
    const std::string& ident;
    int line;
    const char* fn;
    std::string file;
    Sink t{2};
    Con(bool c, bool f, bool b, bool o, const std::string& i, int l, const char* fun, const char* p) : color(c), function(f), bare(b), once(o), ident(i), line(l), fn(fun), file(p) {
        if (bare) {
            const size_t k = file.find_last_of('/');
            if (k != std::string::npos) file = file.substr(k + 1);
        }
    }
    void place(const char* prefix = "== ") { t << prefix << file << ":" << line; if (function) t << " <" << fn << "> "; }
    void start() { if (once) { place(); t << "\n"; } }
    void tint(const char* c) { if (color) t << c; }
    void record(const char* n, const E& e) {
        if (once) t << ident; else { place(); t << " "; }
        t << "[[ "; tint("\033[0;33m"); t << n; tint("\033[0m"); t << " ]] ==> ";
        tint("\033[0;32m"); t << e; tint("\033[0m"); t << "\n";
    }
    void message(const char* prefix, const E& e) {
        place(prefix);
        t << "==> "; tint("\033[0;31m"); t << e; tint("\033[0m"); t << " <==\n";
    }
};
#define CON Con c(color, function, bare, once, ident, line, fn, file);
#define CASE(NAME, IMPL, ...) \
EX void w_impl_##NAME(ARGS) { SET IMPL; } \
EX void w_spec_##NAME(ARGS) { CON __VA_ARGS__; }
CASE(value, l.writeVariable(line, fn, file, n1, e1), c.start(); c.record(n1, e1))
CASE(values2, l.writeVariable(line, fn, file, n1, e1, n2, e2), c.start(); c.record(n1, e1); c.record(n2, e2))
CASE(values3, l.writeVariable(line, fn, file, n1, e1, n2, e2, n3, e3), c.start(); c.record(n1, e1); c.record(n2, e2); c.record(n3, e3))
CASE(message, l.writeMessage(n1, line, fn, file, e1), c.message(n1, e1))
CASE(messages3, l.writeMessage(n1, line, fn, file, e1, e2, e3), c.message(n1, e1); c.message(n1, e2); c.message(n1, e3))
EX void w_impl_default(int line, const char* fn, const char* file, const char* n1, const E& e1) { ConsoleLogger l; l.writeVariable(line, fn, file, n1, e1); }
inline void by_default(int line, const char* fn, const char* file, const char* n1, const E& e1) { std::string ident("||     "); Con c(true, true, false, true, ident, line, fn, file); c.start(); c.record(n1, e1); }
EX void w_spec_default(int line, const char* fn, const char* file, const char* n1, const E& e1) { by_default(line, fn, file, n1, e1); }
EX void w_impl_reset(ConsoleLogger& l, int line, const char* fn, const char* file, const char* n1, const E& e1) { ConsoleLogger k(l); k.reset(); k.writeVariable(line, fn, file, n1, e1); }
EX void w_spec_reset(ConsoleLogger& l, int line, const char* fn, const char* file, const char* n1, const E& e1) { by_default(line, fn, file, n1, e1); }
//@ section settings argmem=@(visit|ms_.*)$
#define SETTING(GET, SET) \
EX bool w_impl_##GET(ConsoleLogger& l, bool v) { ConsoleLogger k(l); k.SET(v); return k.GET(); } \
EX bool w_spec_##GET(ConsoleLogger& l, bool v) { return v; } \
EX bool w_impl_##GET##_reset(ConsoleLogger& l) { ConsoleLogger k(l), d; k.reset(); return k.GET() == d.GET(); } \
EX bool w_spec_##GET##_reset(ConsoleLogger& l) { return true; }
SETTING(getColoredOutput, setColoredOutput)
SETTING(getOnlyFilename, setOnlyFliename)
SETTING(getPrintFunction, setPrintFunction)
SETTING(getPrintAggregated, setPrintAggregated)
EX const char* w_impl_ident(ConsoleLogger& l, const std::string& v) { ConsoleLogger k(l); k.setIdentation(v); return k.getIdentation().c_str(); }
EX const char* w_spec_ident(ConsoleLogger& l, const std::string& v) { return v.c_str(); }
//@ section stdio argmem=@(visit|ms_.*)$
#define CARGS int line, const char* fn, const char* file, const char* n1, const E& e1, const char* n2, const E& e2, const char* n3, const E& e3
struct Std {
    Sink t{1};
    int line;
    const char *fn, *file;
    void record(const char* n, const E& e) { t << "== " << file << ": " << line << " <" << fn << "> [[ " << n << " ]] ==> " << e << "\n"; }
    void message(const char* p, const E& e) { t << p << " " << file << ": " << line << " <" << fn << "> ==> " << e << " <==\n"; }
};
#define STD(NAME, IMPL, ...) \
EX void w_impl_##NAME(CARGS) { IMPL; } \
EX void w_spec_##NAME(CARGS) { Std c; c.line = line; c.fn = fn; c.file = file; __VA_ARGS__; }
STD(value, ConsoleLogger::writeVarC(line, fn, file, n1, e1), c.record(n1, e1))
STD(values2, ConsoleLogger::writeVarC(line, fn, file, n1, e1, n2, e2), c.record(n1, e1); c.record(n2, e2))
STD(values3, ConsoleLogger::writeVarC(line, fn, file, n1, e1, n2, e2, n3, e3), c.record(n1, e1); c.record(n2, e2); c.record(n3, e3))
STD(message, ConsoleLogger::writeMessageC(n1, line, fn, file, e1), c.message(n1, e1))
STD(messages3, ConsoleLogger::writeMessageC(n1, line, fn, file, e1, e2, e3), c.message(n1, e1); c.message(n1, e2); c.message(n1, e3))
//@ section html argmem=@(visit|ms_.*)$
#define HARGS const char* log, int line, std::string& file, const char* n1, const E& e1, const char* n2, const E& e2, const char* n3, const E& e3
struct Rows {
    Sink t;
    int line, group;
    std::string& file;
    void row(const char* n, const E& e) { t << "[" << group << ", " << line << ", '" << file << "', '" << n << "', " << e << "],\n"; }
};
#define HTML(NAME, IMPL, ...) \
EX void w_impl_##NAME(HARGS) { HtmlLogger l; l.create(log); IMPL; } \
EX void w_spec_##NAME(HARGS) { HtmlLogger l; l.create(log); Rows r{{str_file(log)}, line, 0, file}; __VA_ARGS__; }
HTML(value, l.writeVar(line, file, n1, e1), r.row(n1, e1))
HTML(values3, l.writeVar(line, file, n1, e1, n2, e2, n3, e3), r.row(n1, e1); r.row(n2, e2); r.row(n3, e3))
HTML(groups, l.writeVar(line, file, n1, e1, n2, e2); l.writeVar(line, file, n3, e3), r.row(n1, e1); r.row(n2, e2); r.group++; r.row(n3, e3))
EX void w_impl_lazy(HARGS) { HtmlLogger l(log); l.writeVar(line, file, n1, e1); }
EX void w_spec_lazy(HARGS) { HtmlLogger l; l.create(log); l.writeVar(line, file, n1, e1); }
// the name of the file as a text of the script
template <int V> inline std::string escaped(const char* p) {
    std::string r;
    if (V == 1) for (int i = 0; p[i] != '\0'; i++) { if (p[i] == '\\') r += "\\\\"; else r += p[i]; }
    if (V == 2) for (const char* q = p; *q; ++q) { if (*q == '\\') r += "\\\\"; else r += *q; }
    if (V == 3) for (size_t i = 0; p[i]; i++) { if (p[i] == '\\') r += "\\\\"; else r += p[i]; }
    if (V == 4) for (const char* q = p; *q; ++q) { if (*q == '\\') r += '\\'; r += *q; }
    if (V == 5) for (int i = 0; p[i]; i++) { if (p[i] == '\\') r += '\\'; r += p[i]; }
    if (V == 6) { std::string s(p); for (char c : s) { if (c == '\\') r += "\\\\"; else r += c; } }
    if (V == 7) { std::string s(p); for (char c : s) { if (c == '\\') r += '\\'; r += c; } }
    // (the two comparisons of a character joined into one switch)
    if (V == 8) for (const char* q = p;; ++q) { switch (*q) { case '\0': return r; case '\\': r += '\\'; default: r += *q; } }
    if (V == 9) for (const char* q = p;; ++q) { switch (*q) { case '\0': return r; case '\\': r += "\\\\"; break; default: r += *q; } }
    return r;
}
#define FILE_NAME(NAME, ...) \
EX void w_impl_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); l.writeVar(line, file, __VA_ARGS__); } \
EX void w_spec_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<1>(file); l.writeVar(line, f, __VA_ARGS__); } \
EX void w_spec2_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<2>(file); l.writeVar(line, f, __VA_ARGS__); } \
EX void w_spec3_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<3>(file); l.writeVar(line, f, __VA_ARGS__); } \
EX void w_spec4_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<4>(file); l.writeVar(line, f, __VA_ARGS__); } \
EX void w_spec5_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<5>(file); l.writeVar(line, f, __VA_ARGS__); } \
EX void w_spec6_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<6>(file); l.writeVar(line, f, __VA_ARGS__); } \
EX void w_spec7_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<7>(file); l.writeVar(line, f, __VA_ARGS__); } \
EX void w_spec8_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<8>(file); l.writeVar(line, f, __VA_ARGS__); } \
EX void w_spec9_##NAME(const char* log, int line, const char* file, const char* n1, const E& e1, const char* n2, const E& e2) { HtmlLogger l; l.create(log); std::string f = escaped<9>(file); l.writeVar(line, f, __VA_ARGS__); }
FILE_NAME(file_value, n1, e1)
FILE_NAME(file_values2, n1, e1, n2, e2)
