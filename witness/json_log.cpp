//@ preamble
#define MS_NO_FAILURE true
#include "model_stream.h"
#include <GTMesh/Debug/JSONLogger.h>
#define EX extern "C"
struct E { long x; };
EX void visit(size_t f, long e);
inline void PrintTo(const E& e, std::ostream& o) { visit(o.s.id, e.x); }
inline void PrintTo(const E& e) { visit(1, e.x); }
// what the log has to contain
struct Ref {
    size_t f = 0;
    bool open = false, first = true;
    int group = 0;
    void text(const char* p) { ms_str(f, p); }
    void begin(const char* file) { end(); f = str_file(file); ms_opens(f, 1); open = true; first = true; text("{\n\"logs\":[\n"); }
    void end() { if (open) { text("\n]\n}"); ms_close(f); open = false; } }
    void quoted(const std::string& s) { ms_char(f, '"'); ms_quoted(f, s.c_str()); ms_char(f, '"'); }
    void quoted(const char* s) { ms_char(f, '"'); ms_quoted(f, s); ms_char(f, '"'); }
    void record(int line, const std::string& file, const char* name, long x) {
        if (!first) text(",\n");
        first = false;
        text("\t{\n\t\t\"gInd\" : "); ms_int(f, group, 10);
        text(",\n\t\t\"file\" : "); quoted(file);
        text(",\n\t\t\"line\" : "); ms_int(f, line, 10);
        text(",\n\t\t\"expr\" : "); quoted(name);
        text(",\n\t\t\"data\" : "); visit(f, x);
        text("\n\t}");
    }
    void plain(const char* name, long x) {
        if (!first) text(",\n");
        first = false;
        text("\t{\n\t\t\"expr\" : "); quoted(name);
        text(",\n\t\t\"data\" : "); visit(f, x);
        text("\n}");
    }
};
//@ section history argmem=@(visit|ms_.*)$
#define ARGS const char* log, int line, const std::string& file, const char* n1, const E& e1, const char* n2, const E& e2, const char* n3, const E& e3
#define CASE(NAME, IMPL, ...) \
EX void w_impl_##NAME(ARGS) { JSONLogger l(log); IMPL; } \
EX void w_spec_##NAME(ARGS) { Ref l; __VA_ARGS__; l.end(); }
CASE(unused, , )
CASE(one, l.writeVar(line, file, n1, e1), l.begin(log); l.record(line, file, n1, e1.x))
CASE(group, l.writeVar(line, file, n1, e1, n2, e2, n3, e3), l.begin(log); l.record(line, file, n1, e1.x); l.record(line, file, n2, e2.x); l.record(line, file, n3, e3.x))
CASE(two_groups, l.writeVar(line, file, n1, e1, n2, e2); l.writeVar(line + 1, file, n3, e3), l.begin(log); l.record(line, file, n1, e1.x); l.record(line, file, n2, e2.x); l.group++; l.record(line + 1, file, n3, e3.x))
CASE(closed, l.writeVar(line, file, n1, e1); l.destroy(), l.begin(log); l.record(line, file, n1, e1.x); l.end())
CASE(closed_twice, l.writeVar(line, file, n1, e1); l.destroy(); l.destroy(), l.begin(log); l.record(line, file, n1, e1.x); l.end())
CASE(continued, l.writeVar(line, file, n1, e1); l.destroy(); l.create(n3); l.writeVar(line, file, n2, e2, n3, e3), l.begin(log); l.record(line, file, n1, e1.x); l.end(); l.group++; l.begin(n3); l.record(line, file, n2, e2.x); l.record(line, file, n3, e3.x))
CASE(reopened, l.create(n1); l.create(n2); l.writeVar(line, file, n1, e1), l.begin(n1); l.end(); l.begin(n2); l.record(line, file, n1, e1.x))
CASE(empty, l.create(n1), l.begin(n1))
CASE(names_only, l.writeVar(n1, e1), l.begin(log); l.plain(n1, e1.x))
CASE(names_only_group, l.writeVar(n1, e1, n2, e2), l.begin(log); l.plain(n1, e1.x); l.plain(n2, e2.x))
CASE(char_file, l.writeVar(line, n2, n1, e1), l.begin(log); l.record(line, n2, n1, e1.x))
CASE(char_file_group, l.writeVar(line, n2, n1, e1, n3, e3), l.begin(log); l.record(line, n2, n1, e1.x); l.record(line, n2, n3, e3.x))
CASE(moved, l.writeVar(line, file, n1, e1); JSONLogger m(std::move(l)); m.destroy(); (void)0, l.begin(log); l.record(line, file, n1, e1.x); l.end())
//@ section any_number argmem=@(visit|ms_.*)$
// as many records as asked for, whatever the condition of the loop
EX void w_impl_records(const char* log, const std::string& file, const char* n1, const E* e, size_t n) {
    JSONLogger l(log);
    l.create(log);
    for (size_t i = 0; i < n; ++i) l.writeVar(7, file, n1, e[i]);
}
EX void w_spec_records(const char* log, const std::string& file, const char* n1, const E* e, size_t n) {
    Ref l;
    l.begin(log);
    for (size_t i = 0; i < n; ++i) { l.record(7, file, n1, e[i].x); l.group++; }
    l.end();
}
EX void w_spec2_records(const char* log, const std::string& file, const char* n1, const E* e, size_t n) {
    Ref l;
    l.begin(log);
    for (size_t i = 0; i < n; ++i) { l.group = i; l.first = i == 0; l.record(7, file, n1, e[i].x); }
    l.end();
}
//@ section values argmem=@(visit|ms_.*)$
// a text value is quoted and escaped as a name is
#define VALUE(NAME, TYPE, QUOTED) \
EX void w_impl_##NAME(const char* log, const char* n1, const TYPE& v) { JSONLogger l(log); l.writeVar(n1, v); } \
EX void w_spec_##NAME(const char* log, const char* n1, const TYPE& v) { Ref l; l.begin(log); l.text("\t{\n\t\t\"expr\" : "); l.quoted(n1); l.text(",\n\t\t\"data\" : "); QUOTED; l.text("\n}"); l.end(); }
typedef const char* ctext;
VALUE(text, std::string, l.quoted(v))
VALUE(c_text, ctext, l.quoted(v))
VALUE(flag, bool, l.text(v ? "true" : "false"))
VALUE(number, int, ms_int(l.f, v, 10))
