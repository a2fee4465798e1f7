// Reference complex / real matrices and element helpers for the dense-algebra harnesses.
#ifndef CREF_H
#define CREF_H
#include "ref.h"
struct CM
{
    int r, c; bool cx; std::vector<double> re, im;
    CM(int r_ = 0, int c_ = 1, bool cx_ = false) : r(r_), c(c_), cx(cx_), re(r_ * c_, 0.), im(r_ * c_, 0.) {}
    int n() const { return r * c; }
    static CM sym(const char *nm, int r, int c, bool cx) { CM m(r, c, cx); for (int i = 0; i < r * c; i++) { m.re[i] = sym_real(sym_fmt("%s%d", nm, i).c_str()); if (cx) m.im[i] = sym_real(sym_fmt("%s%di", nm, i).c_str()); } return m; }
    static CM eye(int n, bool cx) { CM m(n, n, cx); for (int i = 0; i < n; i++) m.re[i + i * n] = 1; return m; }
    CM conj() const { CM m = *this; for (auto &x : m.im) x = -x; return m; }
    CM t() const { CM m(c, r, cx); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { m.re[j + i * c] = re[i + j * r]; m.im[j + i * c] = im[i + j * r]; } return m; }
    CM h() const { return t().conj(); }
    CM map(const std::function<void(double &, double &, int)> &f) const { CM m = *this; for (int i = 0; i < r * c; i++) f(m.re[i], m.im[i], i); return m; }
    CM sub(int i0, int ni, int j0, int nj) const { CM m(ni, nj, cx); for (int j = 0; j < nj; j++) for (int i = 0; i < ni; i++) { m.re[i + j * ni] = re[i0 + i + (j0 + j) * r]; m.im[i + j * ni] = im[i0 + i + (j0 + j) * r]; } return m; }
};
inline CM operator+(const CM &x, const CM &y) { CM m = x; for (int i = 0; i < x.n(); i++) { m.re[i] += y.re[i]; if (x.cx) m.im[i] += y.im[i]; } return m; }
inline CM operator-(const CM &x, const CM &y) { CM m = x; for (int i = 0; i < x.n(); i++) { m.re[i] -= y.re[i]; if (x.cx) m.im[i] -= y.im[i]; } return m; }
inline CM scal(double a, double b, const CM &x) { CM m = x; for (int i = 0; i < x.n(); i++) { if (!x.cx) m.re[i] = a * x.re[i]; else { m.re[i] = a * x.re[i] - b * x.im[i]; m.im[i] = a * x.im[i] + b * x.re[i]; } } return m; }
inline CM operator*(const CM &x, const CM &y)
{
    CM m(x.r, y.c, x.cx);
    for (int i = 0; i < x.r; i++) for (int j = 0; j < y.c; j++) { double s = 0, t = 0; for (int k = 0; k < x.c; k++) { double a = x.re[i + k * x.r], b = x.im[i + k * x.r], p = y.re[k + j * y.r], q = y.im[k + j * y.r]; if (x.cx) { s += a * p - b * q; t += a * q + b * p; } else s += a * p; } m.re[i + j * x.r] = s; m.im[i + j * x.r] = t; }
    return m;
}
inline CM hadam(const CM &x, const CM &y) { CM m = x; for (int i = 0; i < x.n(); i++) { if (!x.cx) m.re[i] = x.re[i] * y.re[i]; else { m.re[i] = x.re[i] * y.re[i] - x.im[i] * y.im[i]; m.im[i] = x.re[i] * y.im[i] + x.im[i] * y.re[i]; } } return m; }
inline CM hadamdiv(const CM &x, const CM &y) { CM m = x; for (int i = 0; i < x.n(); i++) { if (!x.cx) m.re[i] = x.re[i] / y.re[i]; else { double d = y.re[i] * y.re[i] + y.im[i] * y.im[i]; m.re[i] = (x.re[i] * y.re[i] + x.im[i] * y.im[i]) / d; m.im[i] = (x.im[i] * y.re[i] - x.re[i] * y.im[i]) / d; } } return m; }
inline CM diagc(const CM &d) { int n = d.n(); CM m(n, n, d.cx); for (int i = 0; i < n; i++) { m.re[i + i * n] = d.re[i]; m.im[i + i * n] = d.im[i]; } return m; }
inline void put(Element &e, const CM &m) { realdp *q = e.ObtainWriteEntireData(); for (int i = 0; i < m.n(); i++) { if (m.cx) { q[2 * i] = m.re[i]; q[2 * i + 1] = m.im[i]; } else q[i] = m.re[i]; } }
inline Element el(const CM &m) { Element e(m.r, m.c, 1, m.cx); put(e, m); return e; }
inline void eqC(const Element &e, const CM &m, const char *l)
{
    if (e.Getiscomplex() != m.cx || e.Getrow() != m.r || e.Getcol() * e.Getnum() != m.c || e.Getlength() != (m.cx ? 2 : 1) * m.n()) { sym_fail("%s:shape", l); return; }
    const realdp *q = e.ObtainReadData(); if (!q) { sym_fail("%s:empty", l); return; }
    for (int i = 0; i < m.n(); i++) { if (m.cx) { sym_eq(q[2 * i], m.re[i], "%s", l); sym_eq(q[2 * i + 1], m.im[i], "%s:imag", l); } else sym_eq(q[i], m.re[i], "%s", l); }
}
#endif
