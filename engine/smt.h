#pragma once
#include "expr.h"
enum Sat { SAT, UNSAT, UNKNOWN };
struct SolveStats { long queries = 0, sat = 0, unsat = 0, unknown = 0, abs_unsat = 0, ext = 0; double secs = 0; double maxq = 0; };
extern SolveStats g_ss;
// conj: booleans that must all hold.  On SAT fills model (by var index) with an assignment already
// re-validated by concrete evaluation of the whole conjunction.
Sat solve(const std::vector<E>& conj, Assign* model, int timeout_ms, bool allowExternal, bool quickOnly = false);
extern std::string g_dumpDir;
extern bool g_verbose;
