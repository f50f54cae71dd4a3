//@ preamble
#define MS_NO_FAILURE true
#include "model_stream.h"
#include <GTMesh/Debug/JSONLogger.h>
#include <GTMesh/Debug/HTMLLogger.h>
#define EX extern "C"
struct E { long x; };
EX void visit(size_t f, long e);
inline void PrintTo(const E& e, std::ostream& o) { visit(o.s.id, e.x); }
inline void PrintTo(const E& e) { visit(1, e.x); }
// which files are open when, and which of them a value goes to
struct Ref {
    size_t f = 0;
    bool open = false;
    void create(const char* file) { destroy(); f = str_file(file); ms_opens(f, 1); open = true; }
    void destroy() { if (open) { ms_close(f); open = false; } }
    void value(const char* file, const E& e) { if (!open) create(file); visit(f, e.x); }
};
//@ section one_release argmem=@(visit|ms_(opens|close))$ pure=@ms_(char|str|text|quoted|int|uint|real|lreal|pointer|pad|bad)$
#define ARGS const char* log, const char* a, const char* b, int line, const char* n, const E& e1, const E& e2
#define HISTORY(NAME, IMPL, ...) \
EX void w_impl_json_##NAME(ARGS) { using L = JSONLogger; L l(log); IMPL; } \
EX void w_impl_html_##NAME(ARGS) { using L = HtmlLogger; L l(log); IMPL; } \
EX void w_spec_json_##NAME(ARGS) { Ref l; __VA_ARGS__; l.destroy(); } \
EX void w_spec_html_##NAME(ARGS) { Ref l; __VA_ARGS__; l.destroy(); }
#define PUT(E1) l.writeVar(line, n, n, E1)
#define PUT2(E1, E2) l.writeVar(line, n, n, E1, n, E2)
#define VAL(E1) l.value(log, E1)
HISTORY(unused, , )
HISTORY(created, l.create(a), l.create(a))
HISTORY(destroyed_unused, l.destroy(), )
HISTORY(created_destroyed, l.create(a); l.destroy(), l.create(a); l.destroy())
HISTORY(destroyed_twice, l.create(a); l.destroy(); l.destroy(), l.create(a); l.destroy())
HISTORY(created_twice, l.create(a); l.create(b), l.create(a); l.create(b))
HISTORY(created_three_times, l.create(a); l.create(b); l.create(a), l.create(a); l.create(b); l.create(a))
HISTORY(written, PUT(e1), VAL(e1))
HISTORY(written_twice, PUT(e1); PUT(e2), VAL(e1); VAL(e2))
HISTORY(written_group, PUT2(e1, e2), VAL(e1); VAL(e2))
HISTORY(written_created, PUT(e1); l.create(a); PUT(e2), VAL(e1); l.create(a); VAL(e2))
HISTORY(written_destroyed, PUT(e1); l.destroy(), VAL(e1); l.destroy())
HISTORY(written_destroyed_written, PUT(e1); l.destroy(); PUT(e2), VAL(e1); l.destroy(); VAL(e2))
HISTORY(created_written_destroyed_created, l.create(a); PUT(e1); l.destroy(); l.create(b); PUT(e2), l.create(a); VAL(e1); l.destroy(); l.create(b); VAL(e2))
HISTORY(created_written_created_destroyed_twice, l.create(a); PUT(e1); l.create(b); l.destroy(); l.destroy(), l.create(a); VAL(e1); l.create(b); l.destroy())
HISTORY(moved_unused, L m(std::move(l)); m.writeVar(line, n, n, e1), VAL(e1))
HISTORY(moved, PUT(e1); L m(std::move(l)); m.writeVar(line, n, n, e2), VAL(e1); VAL(e2))
HISTORY(moved_destroyed, PUT(e1); L m(std::move(l)); m.destroy(); l.destroy(), VAL(e1))
HISTORY(moved_from_created, l.create(a); L m(std::move(l)); l.create(b); PUT(e1); l.destroy(); m.writeVar(line, n, n, e2), l.create(a); Ref m = l; l.open = false; l.create(b); VAL(e1); l.destroy(); m.value(log, e2); m.destroy())
//@ section any_state argmem=@(visit|ms_(opens|close))$ pure=@ms_(char|str|text|quoted|int|uint|real|lreal|pointer|pad|bad)$
// from any state a logger can be in: opening, closing twice and the end of the object release what is open as closing does
#define STEPS(N, L) \
EX void w_impl_##N##_create(L& l, const char* a) { l.create(a); } \
EX void w_spec_##N##_create(L& l, const char* a) { l.destroy(); l.create(a); } \
EX void w_impl_##N##_twice(L& l) { l.destroy(); l.destroy(); } \
EX void w_spec_##N##_twice(L& l) { l.destroy(); } \
EX void w_impl_##N##_destruct(L& l) { l.~L(); } \
EX void w_spec_##N##_destruct(L& l) { l.destroy(); l.~L(); }
STEPS(json, JSONLogger)
STEPS(html, HtmlLogger)
//@ section always noheap argmem=@(visit|ms_(opens|close))$ pure=@ms_(char|str|text|quoted|int|uint|real|lreal|pointer|pad|bad)$
// any number of times
template <class L> inline void cycle(const char* log, const char* a, size_t n) {
    L l(log);
    for (size_t i = 0; i < n; ++i) { l.create(a); l.destroy(); l.destroy(); }
}
inline void cycle(const char* a, size_t n) {
    const size_t f = str_file(a);
    for (size_t i = 0; i < n; ++i) { ms_opens(f, 1); ms_close(f); }
}
EX void w_impl_json_cycle(const char* log, const char* a, size_t n) { cycle<JSONLogger>(log, a, n); }
EX void w_spec_json_cycle(const char* log, const char* a, size_t n) { cycle(a, n); }
EX void w_impl_html_cycle(const char* log, const char* a, size_t n) { cycle<HtmlLogger>(log, a, n); }
EX void w_spec_html_cycle(const char* log, const char* a, size_t n) { cycle(a, n); }
//@ nocompile json_copy
void f(JSONLogger& a) { JSONLogger b(a); }
//@ nocompile html_copy
void f(HtmlLogger& a) { HtmlLogger b(a); }
//@ nocompile json_assign
void f(JSONLogger& a, JSONLogger& b) { a = b; }
//@ nocompile html_assign
void f(HtmlLogger& a, HtmlLogger& b) { a = b; }
//@ compile usable
void f(JSONLogger& a, HtmlLogger& b) { a.create("x"); b.create("y"); JSONLogger c(std::move(a)); HtmlLogger d(std::move(b)); }
