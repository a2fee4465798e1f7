// Harness API of the symbolic-execution engine. The same harness source is compiled twice:
//  * symbolic build: linked with symrt.cpp; doubles may be NaN-boxed term handles and every floating
//    operation of the instrumented repository code goes through the term builder;
//  * replay build (-DSYM_REPLAY): linked with replayrt.cpp and the real BLAS/LAPACK/FFTW; inputs come from
//    a counterexample file.
#ifndef SYM_H
#define SYM_H
#include <vector>
#include <functional>
#include <string>
#include <cstdio>
#include <cstdarg>

double sym_real(const char *name);                        // arbitrary real
double sym_real(const char *name, double lo, double hi);  // arbitrary real in [lo,hi]
double sym_pos(const char *name);                         // arbitrary real > 0
int sym_choice(const char *name, int n);                  // arbitrary integer in 0..n-1 (path fork)
void sym_assume_eq(double a, double b);
void sym_assume_ne(double a, double b);
void sym_assume_le(double a, double b);
void sym_assume_lt(double a, double b);
void sym_assume(bool c);
// assertions
void sym_eq(double a, double b, const char *fmt, ...);
void sym_le(double a, double b, const char *fmt, ...);
void sym_lt(double a, double b, const char *fmt, ...);
void sym_ne(double a, double b, const char *fmt, ...);
void sym_true(bool c, const char *fmt, ...);
void sym_fail(const char *fmt, ...);
void sym_reach(const char *label);                        // non-vacuity witness
// derivative at t=0 of every component of g(t)
std::vector<double> sym_ddt(const std::function<std::vector<double>(double)> &g);
// same, but g is called exactly once in the symbolic build with an infinitesimal t (value part is returned in *val)
bool sym_symbolic();                                      // true in the symbolic build
void sym_tol(double relative);                            // replay tolerance (relative), default 1e-6
void sym_stop();                                          // end this path here (not a failure)
void sym_div0_assume(bool on);                            // true: assume divisors nonzero; false (default): explore division by zero as well
void sym_qr_throw(bool on);                                // true: the model of the QR factorization throws an int (to leave a function before it); no effect in a replay
// registered decompositions used by the eigen / svd models: see blas_model.cpp
void sym_note(const char *fmt, ...);
bool sym_isconst(double v);                               // v has a concrete value
bool sym_same(double a, double b);                        // syntactically identical terms (or equal concrete values)

struct SymCaseReg { SymCaseReg(const char *name, void (*fn)(), int tier); };
#define SYM_CASE(NAME) static void symcase_##NAME(); static SymCaseReg symreg_##NAME(#NAME, symcase_##NAME, 0); static void symcase_##NAME()
#define SYM_CASE_THOROUGH(NAME) static void symcase_##NAME(); static SymCaseReg symreg_##NAME(#NAME, symcase_##NAME, 1); static void symcase_##NAME()
void sym_register_case(const std::string &name, std::function<void()> fn, int tier = 0);

std::string sym_fmt(const char *fmt, ...);
#endif
