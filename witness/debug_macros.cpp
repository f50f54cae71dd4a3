//@ preamble
#ifdef MODE_OFF
#define UNDEBUG
#endif
#define MS_NO_FAILURE true
#include "model_stream.h"
#include <GTMesh/Debug/Debug.h>
#define EX extern "C"
struct E { long x; };
EX void visit(size_t f, long e);
EX void note(int what);
EX long touch(long which);
EX bool asked(long which);
inline void PrintTo(const E& e, std::ostream& o) { visit(o.s.id, e.x); }
inline void PrintTo(const E& e) { visit(1, e.x); }
inline E arg(long k) { return E{touch(k)}; }
//@ section disabled mode=off argmem=@(visit|note|touch|asked|ms_.*)$
// nothing is evaluated, nothing happens, whatever surrounds the statement
#define NOTHING(NAME, ...) \
EX void w_impl_##NAME() { note(1); __VA_ARGS__; note(2); } \
EX void w_spec_##NAME() { note(1); note(2); } \
EX void w_impl_##NAME##_branch(bool a) { note(1); if (a) __VA_ARGS__; else note(3); note(2); } \
EX void w_spec_##NAME##_branch(bool a) { note(1); if (!a) note(3); note(2); } \
EX void w_impl_##NAME##_loop(int n) { for (int i = 0; i < n; ++i) { note(i); if (i > 7) __VA_ARGS__; } } \
EX void w_spec_##NAME##_loop(int n) { for (int i = 0; i < n; ++i) note(i); }
NOTHING(DBGVAR, DBGVAR(arg(1)))
NOTHING(DBGVAR3, DBGVAR(arg(1), arg(2), arg(3)))
NOTHING(DBGVARCOND, DBGVARCOND(asked(1), arg(1)))
NOTHING(DBGVARCOND3, DBGVARCOND(asked(1), arg(1), arg(2), arg(3)))
NOTHING(DBGVAR_STDIO, DBGVAR_STDIO(arg(1)))
NOTHING(DBGVAR_STDIO3, DBGVAR_STDIO(arg(1), arg(2), arg(3)))
NOTHING(DBGVARCOND_STDIO, DBGVARCOND_STDIO(asked(1), arg(1)))
NOTHING(DBGVARCOND_STDIO3, DBGVARCOND_STDIO(asked(1), arg(1), arg(2), arg(3)))
NOTHING(DBGVAR_HTML, DBGVAR_HTML(arg(1)))
NOTHING(DBGVAR_HTML3, DBGVAR_HTML(arg(1), arg(2), arg(3)))
NOTHING(DBGVARCOND_HTML, DBGVARCOND_HTML(asked(1), arg(1)))
NOTHING(DBGVARCOND_HTML3, DBGVARCOND_HTML(asked(1), arg(1), arg(2), arg(3)))
NOTHING(DBGVAR_CSV, DBGVAR_CSV(arg(1)))
NOTHING(DBGVARCOND_CSV, DBGVARCOND_CSV(asked(1), arg(1)))
NOTHING(DBGVAR_JSON, DBGVAR_JSON(arg(1)))
NOTHING(DBGVAR_JSON3, DBGVAR_JSON(arg(1), arg(2), arg(3)))
NOTHING(DBGVARCOND_JSON, DBGVARCOND_JSON(asked(1), arg(1)))
NOTHING(DBGVARCOND_JSON3, DBGVARCOND_JSON(asked(1), arg(1), arg(2), arg(3)))
NOTHING(DBGMSG, DBGMSG(arg(1)))
NOTHING(DBGMSG3, DBGMSG(arg(1), arg(2), arg(3)))
NOTHING(DBG, DBG(arg(1)))
NOTHING(check, DBGCHECK)
NOTHING(check_stdio, DBGCHECK_STDIO)
// the guarded code is the program's own: it runs in this mode, too
EX void w_impl_DBGTRY() { note(1); DBGTRY(note(3)) note(2); }
EX void w_spec_DBGTRY() { note(1); note(3); note(2); }
//@ section enabled opaque=@ConsoleLogger::write\w+$;;@(Html|JSON)Logger::writeVar$ argmem=@(visit|note|touch|asked|ms_.*)$
#define HERE(NAME) __LINE__, "w_impl_" #NAME
#define CON(NAME, ...) dbg::getDebugConsoleLogger().writeVariable(HERE(NAME), __FILE__, __VA_ARGS__)
#define MSG(NAME, P, ...) dbg::getDebugConsoleLogger().writeMessage(P, HERE(NAME), __FILE__, __VA_ARGS__)
#define HTML(...) Singleton<dbg::DBGStatics>::getInstance().HDBGLog.writeVar(__LINE__, __FILE__, __VA_ARGS__)
#define JSON(...) Singleton<dbg::DBGStatics>::getInstance().JSONDBGLog.writeVar(__LINE__, __FILE__, __VA_ARGS__)
#define STD(NAME, ...) ConsoleLogger::writeVarC(HERE(NAME), __FILE__, __VA_ARGS__)
#define STDMSG(NAME, P, ...) ConsoleLogger::writeMessageC(P, HERE(NAME), __FILE__, __VA_ARGS__)
#define RECORD(NAME, CALL, ...) \
EX void w_impl_##NAME() { note(1); CALL; note(2); } \
EX void w_spec_##NAME() { note(1); __VA_ARGS__; note(2); }
#define BRANCH(NAME, CALL, ...) \
EX void w_impl_##NAME(bool a) { if (a) CALL; else note(3); note(2); } \
EX void w_spec_##NAME(bool a) { if (a) { __VA_ARGS__; } else note(3); note(2); }
#define A1 "arg(1)", arg(1)
#define A3 "arg(1)", arg(1), "arg(2)", arg(2), "arg(3)", arg(3)
RECORD(DBGVAR, DBGVAR(arg(1)), CON(DBGVAR, A1))
RECORD(DBGVAR3, DBGVAR(arg(1), arg(2), arg(3)), CON(DBGVAR3, A3))
BRANCH(DBGVAR_branch, DBGVAR(arg(1)), CON(DBGVAR_branch, A1))
RECORD(DBGVARCOND, DBGVARCOND(asked(1), arg(1)), if (asked(1)) CON(DBGVARCOND, A1))
RECORD(DBGVARCOND3, DBGVARCOND(asked(1), arg(1), arg(2), arg(3)), if (asked(1)) CON(DBGVARCOND3, A3))
BRANCH(DBGVARCOND_branch, DBGVARCOND(asked(1), arg(1)), if (asked(1)) CON(DBGVARCOND_branch, A1))
BRANCH(DBGVARCOND_or, DBGVARCOND(asked(1) || asked(2), arg(1)), if (asked(1) || asked(2)) CON(DBGVARCOND_or, A1))
RECORD(DBGVAR_STDIO, DBGVAR_STDIO(arg(1)), STD(DBGVAR_STDIO, A1))
RECORD(DBGVAR_STDIO3, DBGVAR_STDIO(arg(1), arg(2), arg(3)), STD(DBGVAR_STDIO3, A3))
BRANCH(DBGVAR_STDIO_branch, DBGVAR_STDIO(arg(1)), STD(DBGVAR_STDIO_branch, A1))
RECORD(DBGVARCOND_STDIO, DBGVARCOND_STDIO(asked(1), arg(1)), if (asked(1)) STD(DBGVARCOND_STDIO, A1))
RECORD(DBGVARCOND_STDIO3, DBGVARCOND_STDIO(asked(1), arg(1), arg(2), arg(3)), if (asked(1)) STD(DBGVARCOND_STDIO3, A3))
BRANCH(DBGVARCOND_STDIO_branch, DBGVARCOND_STDIO(asked(1), arg(1)), if (asked(1)) STD(DBGVARCOND_STDIO_branch, A1))
BRANCH(DBGVARCOND_STDIO_or, DBGVARCOND_STDIO(asked(1) || asked(2), arg(1)), if (asked(1) || asked(2)) STD(DBGVARCOND_STDIO_or, A1))
RECORD(DBGVAR_HTML, DBGVAR_HTML(arg(1)), HTML(A1))
RECORD(DBGVAR_HTML3, DBGVAR_HTML(arg(1), arg(2), arg(3)), HTML(A3))
BRANCH(DBGVAR_HTML_branch, DBGVAR_HTML(arg(1)), HTML(A1))
RECORD(DBGVARCOND_HTML, DBGVARCOND_HTML(asked(1), arg(1)), if (asked(1)) HTML(A1))
BRANCH(DBGVARCOND_HTML_branch, DBGVARCOND_HTML(asked(1), arg(1)), if (asked(1)) HTML(A1))
BRANCH(DBGVARCOND_HTML_or, DBGVARCOND_HTML(asked(1) || asked(2), arg(1)), if (asked(1) || asked(2)) HTML(A1))
RECORD(DBGVAR_JSON, DBGVAR_JSON(arg(1)), JSON(A1))
RECORD(DBGVAR_JSON3, DBGVAR_JSON(arg(1), arg(2), arg(3)), JSON(A3))
BRANCH(DBGVAR_JSON_branch, DBGVAR_JSON(arg(1)), JSON(A1))
RECORD(DBGVARCOND_JSON, DBGVARCOND_JSON(asked(1), arg(1)), if (asked(1)) JSON(A1))
BRANCH(DBGVARCOND_JSON_branch, DBGVARCOND_JSON(asked(1), arg(1)), if (asked(1)) JSON(A1))
BRANCH(DBGVARCOND_JSON_or, DBGVARCOND_JSON(asked(1) || asked(2), arg(1)), if (asked(1) || asked(2)) JSON(A1))
RECORD(DBGMSG, DBGMSG(arg(1)), MSG(DBGMSG, "++", arg(1)))
RECORD(DBGMSG3, DBGMSG(arg(1), arg(2), arg(3)), MSG(DBGMSG3, "++", arg(1), arg(2), arg(3)))
RECORD(DBG, DBG(arg(1)), MSG(DBG, "++", arg(1)))
BRANCH(DBGMSG_branch, DBGMSG(arg(1)), MSG(DBGMSG_branch, "++", arg(1)))
RECORD(check, DBGCHECK, MSG(check, "--", "check line"))
BRANCH(DBGCHECK_branch, DBGCHECK, MSG(DBGCHECK_branch, "--", "check line"))
RECORD(check_stdio, DBGCHECK_STDIO, STDMSG(check_stdio, "--", "check line"))
BRANCH(DBGCHECK_STDIO_branch, DBGCHECK_STDIO, STDMSG(DBGCHECK_STDIO_branch, "--", "check line"))
EX void w_impl_DBGTRY() noexcept { note(1); DBGTRY(note(3)) note(2); }
EX void w_spec_DBGTRY() noexcept { note(1); note(3); note(2); }
//@ compile DBGVAR_CSV
void f() { DBGVAR_CSV(arg(1)); }
//@ compile DBGVARCOND_CSV
void f() { DBGVARCOND_CSV(asked(1), arg(1)); }
