// Small independent reference matrices used by the harnesses (column major).
#ifndef REF_H
#define REF_H
#include "Manifolds/Element.h"
#include "sym.h"
using namespace ROPTLIB;
struct Mx
{
    int r, c; std::vector<double> a;
    Mx(int r_ = 0, int c_ = 1) : r(r_), c(c_), a(r_ * c_, 0.) {}
    double &operator()(int i, int j = 0) { return a[i + j * r]; }
    double operator()(int i, int j = 0) const { return a[i + j * r]; }
    static Mx eye(int n) { Mx m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
    static Mx sym(const char *nm, int r, int c = 1) { Mx m(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) m(i, j) = sym_real(sym_fmt("%s%d%d", nm, i, j).c_str()); return m; }
    static Mx lit(int r, int c, std::initializer_list<double> l) { Mx m(r, c); int k = 0; for (double d : l) { m(k / c, k % c) = d; k++; } return m; }   // row-major literal
    Mx t() const { Mx m(c, r); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(j, i) = (*this)(i, j); return m; }
    Mx col(int j0, int k = 1) const { Mx m(r, k); for (int j = 0; j < k; j++) for (int i = 0; i < r; i++) m(i, j) = (*this)(i, j0 + j); return m; }
    Mx sub(int i0, int ni, int j0, int nj) const { Mx m(ni, nj); for (int j = 0; j < nj; j++) for (int i = 0; i < ni; i++) m(i, j) = (*this)(i0 + i, j0 + j); return m; }
};
inline Mx operator*(const Mx &x, const Mx &y) { Mx m(x.r, y.c); for (int i = 0; i < x.r; i++) for (int j = 0; j < y.c; j++) { double s = 0; for (int k = 0; k < x.c; k++) s += x(i, k) * y(k, j); m(i, j) = s; } return m; }
inline Mx operator*(double s, const Mx &y) { Mx m = y; for (auto &v : m.a) v = s * v; return m; }
inline Mx operator+(const Mx &x, const Mx &y) { Mx m = x; for (size_t i = 0; i < m.a.size(); i++) m.a[i] += y.a[i]; return m; }
inline Mx operator-(const Mx &x, const Mx &y) { Mx m = x; for (size_t i = 0; i < m.a.size(); i++) m.a[i] -= y.a[i]; return m; }
inline double dot(const Mx &x, const Mx &y) { double s = 0; for (size_t i = 0; i < x.a.size(); i++) s += x.a[i] * y.a[i]; return s; }
inline double tr(const Mx &x) { double s = 0; for (int i = 0; i < x.r; i++) s += x(i, i); return s; }
inline Mx symm(const Mx &x) { return .5 * (x + x.t()); }
inline Mx skew(const Mx &x) { return .5 * (x - x.t()); }
// inverse by adjugate (n <= 2) or Gauss-Jordan with first nonzero pivot
inline Mx inv(const Mx &x)
{
    int n = x.r; if (n == 1) { Mx m(1, 1); m(0, 0) = 1 / x(0, 0); return m; }
    if (n == 2) { double d = x(0, 0) * x(1, 1) - x(0, 1) * x(1, 0); Mx m(2, 2); m(0, 0) = x(1, 1) / d; m(1, 1) = x(0, 0) / d; m(0, 1) = -x(0, 1) / d; m(1, 0) = -x(1, 0) / d; return m; }
    Mx a = x, e = Mx::eye(n);
    for (int k = 0; k < n; k++)
    {
        int p = k; while (p < n - 1 && a(p, k) == 0) p++;
        if (p != k) for (int j = 0; j < n; j++) { std::swap(a(p, j), a(k, j)); std::swap(e(p, j), e(k, j)); }
        double q = a(k, k); for (int j = 0; j < n; j++) { a(k, j) /= q; e(k, j) /= q; }
        for (int i = 0; i < n; i++) if (i != k) { double f = a(i, k); for (int j = 0; j < n; j++) { a(i, j) -= f * a(k, j); e(i, j) -= f * e(k, j); } }
    }
    return e;
}
inline Element toE(const Mx &m) { Element e(m.r, m.c); realdp *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < m.a.size(); i++) p[i] = m.a[i]; return e; }
inline Element toV(const Mx &m) { Element e(m.r * m.c); realdp *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < m.a.size(); i++) p[i] = m.a[i]; return e; }
inline std::vector<double> vals(const Element &e) { const realdp *p = e.ObtainReadData(); return std::vector<double>(p, p + e.Getlength()); }
inline Mx toM(const Element &e) { Mx m(e.Getsize()[0], e.Getlength() / e.Getsize()[0]); m.a = vals(e); return m; }
inline Mx toM(const Element &e, int r, int c) { Mx m(r, c); m.a = vals(e); return m; }
inline void eqM(const Mx &a, const Mx &b, const char *l)
{
    if (a.a.size() != b.a.size()) { sym_fail("%s", l); return; }
    for (size_t i = 0; i < a.a.size(); i++) sym_eq(a.a[i], b.a[i], "%s[%d]", l, (int)i);
}
inline void eqE(const Element &a, const Mx &b, const char *l) { Mx m(b.r, b.c); m.a = vals(a); eqM(m, b, l); }
inline void eqEE(const Element &a, const Element &b, const char *l) { std::vector<double> x = vals(a), y = vals(b); if (x.size() != y.size()) { sym_fail("%s", l); return; } for (size_t i = 0; i < x.size(); i++) sym_eq(x[i], y[i], "%s[%d]", l, (int)i); }
// rational rotations
inline Mx givens(int n, int i, int j, double t)   // rotation by the angle with tan(angle/2) = t
{ Mx m = Mx::eye(n); double d = 1 + t * t, c = (1 - t * t) / d, s = 2 * t / d; m(i, i) = c; m(j, j) = c; m(i, j) = -s; m(j, i) = s; return m; }
// unit vector by stereographic projection: every unit vector except e_n
inline Mx sphpoint(const char *nm, int n) { Mx u = Mx::sym(nm, n - 1); double q = dot(u, u); Mx x(n); for (int i = 0; i < n - 1; i++) x(i) = 2 * u(i) / (q + 1); x(n - 1) = (q - 1) / (q + 1); return x; }
// rational quadrature nodes usable as fixed orthogonal matrices
inline Mx fixedrot(int n, int k)
{
    if (n == 1) return Mx::eye(1);
    static const double h[] = {.5, -2, .25, 3, -1.5, .75};
    Mx m = Mx::eye(n); if (k == 0) return m;
    for (int i = 0; i + 1 < n; i++) m = m * givens(n, i, i + 1, h[(k + i) % 6]);
    if (n > 2) m = m * givens(n, 0, n - 1, h[(k + 2) % 6]);
    return m;
}
#endif
