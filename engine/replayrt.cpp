// Replay runtime: the harness is linked with the real build of /repo and the real BLAS/LAPACK/FFTW; inputs come
// from a counterexample file:  line 1 "case <name>", line 2 "label <label base>", then name=value / name=cK per line.
#include "sym.h"
#include <map>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <limits>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
static std::map<std::string, std::string> in_; static std::map<std::string, int> cnt_; static std::string want_, case_; static double tol_ = 1e-6; static int fails_ = 0, hit_ = 0; static FILE *err_; static bool loose_ = false;   // loose: a point not decided by the solver; only clear numerical failures count
static std::string uniq(const char *n) { int k = cnt_[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
struct Stop { int k; };
static double get(const char *n, double dflt) { auto it = in_.find(uniq(n)); if (it == in_.end()) return dflt; return strtod(it->second.c_str(), 0); }
bool sym_symbolic() { return false; }
void sym_tol(double t) { tol_ = loose_ ? std::max(t, 1e-4) : t; }
void sym_div0_assume(bool) {}
void sym_qr_throw(bool) {}
void sym_stop() { throw Stop{0}; }
std::string sym_fmt(const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
double sym_real(const char *n) { return get(n, 0); }
double sym_real(const char *n, double lo, double hi) { return get(n, (lo + hi) / 2); }
double sym_pos(const char *n) { return get(n, 1); }
int sym_choice(const char *n, int k) { auto it = in_.find(uniq(n)); if (it == in_.end()) return 0; const char *s = it->second.c_str(); return atoi(*s == 'c' ? s + 1 : s); }
static double sc(double a, double b) { return tol_ * (1 + std::fabs(a) + std::fabs(b)); }
void sym_assume_eq(double a, double b) { if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)))) throw Stop{2}; }
void sym_assume_ne(double a, double b) { if (a == b) throw Stop{2}; }
void sym_assume_le(double a, double b) { if (!(a <= b + 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) throw Stop{2}; }
void sym_assume_lt(double a, double b) { if (!(a < b)) throw Stop{2}; }
void sym_assume(bool c) { if (!c) throw Stop{2}; }
static void fail(const std::string &l, const char *what) { fails_++; std::string b = l.substr(0, l.find('[')); if (b == want_ || want_.empty()) hit_++; fprintf(err_, "FAIL %s: %s\n", l.c_str(), what); }
#define LAB std::string label; { char b_[400]; va_list ap; va_start(ap, fmt); vsnprintf(b_, sizeof b_, fmt, ap); va_end(ap); label = b_; }
static std::string two(double a, double b) { char c[100]; snprintf(c, sizeof c, "%.12g vs %.12g", a, b); return c; }
static bool fin(double a) { return std::isfinite(a); }
void sym_eq(double a, double b, const char *fmt, ...) { LAB bool ok = fin(a) && fin(b) ? std::fabs(a - b) <= sc(a, b) : a == b; if (!ok) fail(label, (two(a, b) + " (expected equal)").c_str()); }
void sym_le(double a, double b, const char *fmt, ...) { LAB if (!(a <= b + sc(fin(a) ? a : 0, fin(b) ? b : 0))) fail(label, (two(a, b) + " (expected <=)").c_str()); }
void sym_lt(double a, double b, const char *fmt, ...) { LAB if (loose_ ? !(a <= b + sc(fin(a) ? a : 0, fin(b) ? b : 0)) : !(a < b)) fail(label, (two(a, b) + " (expected <)").c_str()); }
void sym_ne(double a, double b, const char *fmt, ...) { LAB if (!loose_ && !(std::fabs(a - b) > 1e-12)) fail(label, (two(a, b) + " (expected different)").c_str()); }
void sym_true(bool c, const char *fmt, ...) { LAB if (!loose_ && !c) fail(label, "condition is false"); }
void sym_fail(const char *fmt, ...) { LAB if (!loose_) fail(label, "reached"); }
void sym_reach(const char *) {}
void sym_note(const char *fmt, ...) { LAB fprintf(err_, "NOTE %s\n", label.c_str()); }
bool sym_isconst(double) { return true; }
bool sym_same(double a, double b) { return a == b; }
std::vector<double> sym_ddt(const std::function<std::vector<double>(double)> &g)
{
    auto D = [&](double h) { std::vector<double> p = g(h), m = g(-h); for (size_t i = 0; i < p.size(); i++) p[i] = (p[i] - m[i]) / (2 * h); return p; };
    std::vector<double> a = D(2e-3), b = D(1e-3), c = D(5e-4);
    for (size_t i = 0; i < a.size(); i++) { double x = (4 * b[i] - a[i]) / 3, y = (4 * c[i] - b[i]) / 3; a[i] = (16 * y - x) / 15; }
    return a;
}
void sym_register_eig(int, const double *, const double *) {}
void sym_register_eigc(int, const double *, const double *) {}
void sym_register_svd(int, int, const double *, const double *, const double *) {}
void sym_register_svdc(int, int, const double *, const double *, const double *) {}
struct Case { std::string name; std::function<void()> fn; };
static std::vector<Case> &cases() { static std::vector<Case> c; return c; }
SymCaseReg::SymCaseReg(const char *n, void (*fn)(), int) { cases().push_back({n, fn}); }
void sym_register_case(const std::string &n, std::function<void()> fn, int) { cases().push_back({n, fn}); }
extern void sym_harness_init() __attribute__((weak));
static void onCrash(int sig) { char b[60]; int n = snprintf(b, sizeof b, "FAIL %s: signal %d\n", sig == SIGABRT ? "abort" : "crash", sig); if (write(2, b, n)) {} _exit(want_ == "crash" || want_ == "abort" || want_.empty() ? 1 : 4); }
int main(int argc, char **argv)
{
    err_ = stderr; std::ifstream f(argv[1]); std::string l;
    while (std::getline(f, l)) { if (l.compare(0, 5, "case ") == 0) case_ = l.substr(5); else if (l.compare(0, 6, "label ") == 0) want_ = l.substr(6); else if (l == "loose") { loose_ = true; tol_ *= 100; } else { size_t e = l.find('='); if (e != std::string::npos) in_[l.substr(0, e)] = l.substr(e + 1); } }
    if (sym_harness_init) sym_harness_init();
    int dn = open("/dev/null", O_WRONLY); fflush(stdout); dup2(dn, 1);
    signal(SIGSEGV, onCrash); signal(SIGABRT, onCrash); signal(SIGFPE, onCrash); signal(SIGBUS, onCrash); alarm(20);
    int st = 0;
    for (auto &c : cases()) if (c.name == case_) { try { c.fn(); } catch (Stop &s) { st = s.k; } catch (const char *s) { fprintf(err_, "exception %s\n", s); } catch (std::exception &e) { fprintf(err_, "exception %s\n", e.what()); } }
    fprintf(err_, "fails=%d hit=%d stop=%d\n", fails_, hit_, st);
    _exit(hit_ ? 1 : fails_ ? 4 : st == 2 ? 2 : 0);
}
