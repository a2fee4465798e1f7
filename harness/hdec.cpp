// Decompositions and equation solving of Element against their defining equations.
#include "prelude.h"
#include "cref.h"
extern void sym_register_eig(int n, const double *Q, const double *D);
extern void sym_register_eigc(int n, const double *Q, const double *D);
extern void sym_register_svd(int m, int n, const double *U, const double *S, const double *V);
extern void sym_register_svdc(int m, int n, const double *U, const double *S, const double *V);
namespace {
CM rd(const Element &e) { CM m(e.Getrow(), e.Getcol(), e.Getiscomplex()); const realdp *q = e.ObtainReadData(); for (int i = 0; i < m.n(); i++) { if (m.cx) { m.re[i] = q[2 * i]; m.im[i] = q[2 * i + 1]; } else m.re[i] = q[i]; } return m; }
void eqCC(const CM &a, const CM &b, const char *l) { if (a.r != b.r || a.c != b.c || a.cx != b.cx) { sym_fail("%s:shape", l); return; } for (int i = 0; i < a.n(); i++) { sym_eq(a.re[i], b.re[i], "%s", l); if (a.cx) sym_eq(a.im[i], b.im[i], "%s:imag", l); } }
CM lit(int r, int c, bool cx, int k)   // fixed well conditioned matrices with small integer entries
{
    static const int t[] = {2, 1, -1, 3, 1, 4, -2, 1, 5, 1, -3, 2, 1, 2, -1, 4}, u[] = {1, 0, 2, -1, 1, 1, -1, 2, 0, 1, 1, -2, 1, 0, 1, 1};
    CM m(r, c, cx); for (int i = 0; i < r * c; i++) { m.re[i] = t[(i * 3 + 5 * k) % 16] + (i % (r + 1) == 0 ? 4 : 0); if (cx) m.im[i] = u[(i + 3 * k) % 16]; } return m;
}
CM rot(int n, bool cx, int k) { Mx m = fixedrot(n, k); CM q(n, n, cx); for (int i = 0; i < n * n; i++) q.re[i] = m.a[i]; if (cx) { CM d(n, 1, true); static const double th[] = {.5, 1, 0, 3}; for (int i = 0; i < n; i++) { double t = th[(i + k) % 4], q = 1 + t * t; d.re[i] = (1 - t * t) / q; d.im[i] = 2 * t / q; } Mx m2 = fixedrot(n, k + 1); CM q2(n, n, true); for (int i = 0; i < n * n; i++) q2.re[i] = m2.a[i]; q = q * diagc(d) * q2; } return q; }
std::vector<double> flat(const CM &q) { std::vector<double> v; for (int i = 0; i < q.n(); i++) { v.push_back(q.re[i]); if (q.cx) v.push_back(q.im[i]); } return v; }
CM rdiag(const std::vector<double> &d, bool cx) { CM m(d.size(), d.size(), cx); for (size_t i = 0; i < d.size(); i++) m.re[i + i * d.size()] = d[i]; return m; }
void unitary(const CM &q, const char *l) { eqCC(q.h() * q, CM::eye(q.c, q.cx), l); }
void lower(const CM &L, const char *l) { for (int j = 0; j < L.c; j++) for (int i = 0; i < j; i++) { sym_eq(L.re[i + j * L.r], 0, "%s", l); if (L.cx) sym_eq(L.im[i + j * L.r], 0, "%s", l); } }
void upper(const CM &L, const char *l) { lower(L.t(), l); }
// A X = B and X A = B
void solve(bool cx, int n, int k, int sh)
{
    CM A = k < 0 ? CM::sym("a", n, n, cx) : lit(n, n, cx, k), B = CM::sym("b", n, sh == 2 ? n : 1, cx), L = CM::sym("l", sh == 2 ? n : 1, n, cx);
    if (k < 0 && n == 1) { if (cx) sym_assume_ne(A.re[0] * A.re[0] + A.im[0] * A.im[0], 0); else sym_assume_ne(A.re[0], 0); }
    if (k < 0 && n == 2) { if (!cx) sym_assume_ne(A.re[0] * A.re[3] - A.re[1] * A.re[2], 0); else { double p = A.re[0] * A.re[3] - A.im[0] * A.im[3] - A.re[1] * A.re[2] + A.im[1] * A.im[2], q = A.re[0] * A.im[3] + A.im[0] * A.re[3] - A.re[1] * A.im[2] - A.im[1] * A.re[2]; sym_assume_ne(p * p + q * q, 0); } }
    if (k >= 0 && n >= 2 && k % 2) { A.re[0] = 0; A.im[0] = 0; }   // needs a row exchange
    Element a = el(A), b = el(B), l = el(L), c = a;
    if (sh == 3) { Element x = a % a; eqC(x, CM::eye(n, cx), "left_division_by_itself"); Element y = a / a; eqC(y, CM::eye(n, cx), "right_division_by_itself"); eqC(a, A, "division:unchanged"); eqC(c, A, "division:copy_unchanged"); return; }
    Element x = a % b, y = l / a; eqCC(A * rd(x), B, "left_division"); eqCC(rd(y) * A, L, "right_division"); eqC(a, A, "division:unchanged"); eqC(b, B, "division:unchanged"); eqC(l, L, "division:unchanged");
    if (k >= 0) { Element x2 = a % b, y2 = l / a; eqEE(x, x2, "left_division:repeated"); eqEE(y, y2, "right_division:repeated"); Element x3 = c % b; eqEE(x, x3, "left_division:copy"); realdp *w = a.ObtainWritePartialData(); w[0] = w[0] + 1; CM A2 = A; A2.re[0] += 1; Element x4 = a % b; eqCC(A2 * rd(x4), B, "left_division:after_change"); eqC(c, A, "division:copy_unchanged"); }
}
CM symlower(int n, bool cx) { CM L(n, n, cx); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { if (i == j) L.re[i + j * n] = sym_pos(sym_fmt("d%d", i).c_str()); else { L.re[i + j * n] = sym_real(sym_fmt("l%d%d", i, j).c_str()); if (cx) L.im[i + j * n] = sym_real(sym_fmt("li%d%d", i, j).c_str()); } } return L; }
void chol(bool cx, int n)
{
    CM L = symlower(n, cx), A = L * L.h(); Element a = el(A), c = a; a.CholDecom(); eqC(a.Field("_L"), L, "cholesky_factor"); lower(rd(a.Field("_L")), "cholesky_lower"); eqC(a, A, "cholesky:unchanged"); eqC(c, A, "cholesky:copy_unchanged");
    CM X = CM::sym("x", n, 2, cx); char *tr[] = {GLOBAL::N, GLOBAL::T, GLOBAL::C}; int t = sym_choice("trans", cx ? 3 : 2); CM B = (t == 0 ? L : t == 1 ? L.t() : L.h()) * X; Element l = el(L), b = el(B), x = b.TriangleLinSol(l, tr[t]); eqC(x, X, "triangular_solve"); eqC(b, B, "triangular_solve:unchanged"); eqC(l, L, "triangular_solve:unchanged");
    CM G = A; for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) { G.re[i + j * n] = 9; if (cx) G.im[i + j * n] = 7; } Element g = el(G); g.CholDecom(); eqC(g.Field("_L"), L, "cholesky_uses_lower_triangle");
}
void qr(bool cx, int m, int n, int k)
{
    CM A = k < 0 ? CM::sym("a", m, n, cx) : lit(m, n, cx, k); int r = m < n ? m : n; if (k < 0) { double q = 0; for (int i = 0; i < A.n(); i++) q += A.re[i] * A.re[i] + (cx ? A.im[i] * A.im[i] : 0); sym_assume_ne(q, 0); }
    Element a = el(A), c = a; a.QRDecom(); CM Q = rd(a.Field("_Q")), R = rd(a.Field("_R")); if (Q.r != m || Q.c != r || R.r != r || R.c != n) { sym_fail("qr:shape"); return; }
    eqCC(Q * R, A, "qr_product"); unitary(Q, "qr_orthogonal"); upper(R, "qr_upper"); eqC(a, A, "qr:unchanged"); eqC(c, A, "qr:copy_unchanged");
    a.HHRDecom(); Element h = a.Field("_HHR"), t = a.Field("_tau"); char *H = cx ? GLOBAL::C : GLOBAL::T;
    CM X = CM::sym("x", m, 1, cx), Y = CM::sym("y", 1, m, cx); Element x = el(X), y = el(Y);
    Element qa = c.HHRMtp(h, t, H, GLOBAL::L); CM QA = rd(qa), R0(m, n, cx); for (int j = 0; j < n; j++) for (int i = 0; i < r; i++) { R0.re[i + j * m] = R.re[i + j * r]; R0.im[i + j * m] = R.im[i + j * r]; } eqCC(QA, R0, "reflectors_reduce");
    Element id = el(CM::eye(m, cx)), F = id.HHRMtp(h, t, GLOBAL::N, GLOBAL::L); CM Fm = rd(F); unitary(Fm, "reflectors_orthogonal"); eqCC(Fm.sub(0, m, 0, r), Q, "reflectors_first_columns");
    eqC(x.HHRMtp(h, t, GLOBAL::N, GLOBAL::L), Fm * X, "reflectors_NL"); eqC(x.HHRMtp(h, t, H, GLOBAL::L), Fm.h() * X, "reflectors_TL"); eqC(y.HHRMtp(h, t, GLOBAL::N, GLOBAL::R), Y * Fm, "reflectors_NR"); eqC(y.HHRMtp(h, t, H, GLOBAL::R), Y * Fm.h(), "reflectors_TR"); eqC(x, X, "reflectors:unchanged");
}
void svd(bool cx, int m, int n, int k)
{
    int r = m < n ? m : n; CM U = rot(m, cx, k).sub(0, m, 0, r), V = rot(n, cx, k + 1).sub(0, n, 0, r); std::vector<double> S; double last = 0; for (int i = r - 1; i >= 0; i--) { last = last + sym_pos(sym_fmt("s%d", i).c_str()); S.insert(S.begin(), last); }
    CM A = U * rdiag(S, cx) * V.h(); if (cx) sym_register_svdc(m, n, flat(U).data(), S.data(), flat(V).data()); else sym_register_svd(m, n, flat(U).data(), S.data(), flat(V).data());
    Element a = el(A), c = a; a.SVDDecom(); CM u = rd(a.Field("_U")), s = rd(a.Field("_S")), v = rd(a.Field("_Vt")); if (u.r != m || u.c != r || s.r != r || s.c != 1 || v.r != r || v.c != n || s.cx != cx) { sym_fail("svd:shape"); return; }
    for (int i = 0; i < r; i++) { sym_eq(s.re[i], S[i], "singular_values"); if (cx) sym_eq(s.im[i], 0, "singular_values_real"); } eqCC(u * diagc(s) * v, A, "svd_product"); unitary(u, "svd_left"); unitary(v.h(), "svd_right"); eqC(a, A, "svd:unchanged"); eqC(c, A, "svd:copy_unchanged");
    eqC(c.GetOrth(), U * V.h(), "orthogonal_factor"); eqC(c, A, "orthogonal_factor:unchanged");
}
void eig(bool cx, int n, int k, int what)
{
    CM Q = rot(n, cx, k); std::vector<double> D; double last = sym_real("e0"); if (what == 2) last = sym_pos("ep"); D.push_back(last); for (int i = 1; i < n; i++) { last = last + sym_pos(sym_fmt("e%d", i).c_str()); D.push_back(last); }
    if (what == 1) D.assign(D.begin(), D.end());
    CM A = Q * rdiag(D, cx) * Q.h(); if (cx) sym_register_eigc(n, flat(Q).data(), D.data()); else sym_register_eig(n, flat(Q).data(), D.data());
    int up = sym_choice("triangle", 2); char *uo = up ? GLOBAL::U : GLOBAL::L; CM G = A; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i > j : i < j) { G.re[i + j * n] = 9; if (cx) G.im[i + j * n] = 5; }
    Element a = el(G), c = a;
    auto vals = [&](const CM &w, const char *l) { if (w.r != n || w.c != 1 || w.cx != cx) { sym_fail("%s:shape", l); return; } for (int i = 0; i < n; i++) { sym_eq(w.re[i], D[i], "%s", l); if (cx) sym_eq(w.im[i], 0, "%s:imag", l); } };
    if (what == 0)
    {
        a.EigenDecomSym(GLOBAL::N, uo); vals(rd(a.Field("_EigVal")), "eigenvalues_only"); sym_true(!a.FieldsExist("_EigVec"), "eigenvalues_only:vectors"); a.EigenDecomSym(GLOBAL::V, uo); vals(rd(a.Field("_EigVal")), "eigenvalues");
        CM V = rd(a.Field("_EigVec")); unitary(V, "eigenvectors_orthogonal"); eqCC(A * V, V * rdiag(D, cx), "eigenvectors"); a.EigenDecomSym(GLOBAL::N, uo); vals(rd(a.Field("_EigVal")), "eigenvalues"); sym_true(a.FieldsExist("_EigVec"), "eigenvectors_kept");
    }
    else
    {
        Element f = what == 1 ? a.ExpSym(uo) : a.LogSym(uo); std::vector<double> E; for (double d : D) E.push_back(what == 1 ? exp(d) : log(d)); eqC(f, Q * rdiag(E, cx) * Q.h(), what == 1 ? "exponential" : "logarithm"); sym_true(!f.FieldsExist("_EigVal"), "function_carries_no_old_data");
        Element g = what == 1 ? a.ExpSym(uo) : a.LogSym(uo); eqEE(f, g, "function:repeated");
    }
    eqC(a, G, "eigen:unchanged"); eqC(c, G, "eigen:copy_unchanged");
}
void schur(bool cx, int kind)
{
    CM A(2, 2, cx);
    if (kind == 0) { A = CM::sym("a", 2, 2, cx); A.re[1] = 0; A.im[1] = 0; } else if (kind == 1) { A = CM::sym("a", 2, 2, cx); A.im[0] = A.im[3] = 0; A.re[2] = A.re[1]; A.im[2] = cx ? -A.im[1] : 0; } else if (kind == 2) A = CM::sym("a", 2, 2, cx); else A = lit(2, 2, cx, kind);
    Element a = el(A), c = a; a.SchurForm(); CM T = rd(a.Field("_SchurForm")), V = rd(a.Field("_SchurVec")); unitary(V, "schur_vectors"); eqCC(V * T * V.h(), A, "schur_product"); if (kind < 2) upper(T, "schur_triangular"); eqC(a, A, "schur:unchanged");
    Element d = el(A); d.SchurForm(GLOBAL::N); { CM W = rd(d.Field("_SchurForm")); if (kind != 1) eqCC(W, T, "schur_form_only"); else { upper(W, "schur_form_only"); sym_eq(W.re[0] + W.re[3], A.re[0] + A.re[3], "schur_form_only:trace"); sym_eq(W.re[0] * W.re[3] - W.im[0] * W.im[3], A.re[0] * A.re[3] - A.re[1] * A.re[2] + A.im[1] * A.im[2], "schur_form_only:determinant"); } } sym_true(!d.FieldsExist("_SchurVec"), "schur_form_only:vectors"); d.SchurForm(); eqCC(rd(d.Field("_SchurVec")) * rd(d.Field("_SchurForm")) * rd(d.Field("_SchurVec")).h(), A, "schur_after_form_only"); eqC(c, A, "schur:copy_unchanged");
}
void syl(bool cx, int n, int m, int kind)
{
    auto mk = [&](int s, int k) { CM A = lit(s, s, cx, k); if (kind == 0) { for (int j = 0; j < s; j++) for (int i = j + 1; i < s; i++) { A.re[i + j * s] = 0; A.im[i + j * s] = 0; } } if (kind == 1) { for (int j = 0; j < s; j++) { A.im[j + j * s] = 0; for (int i = j + 1; i < s; i++) { A.re[i + j * s] = A.re[j + i * s]; A.im[i + j * s] = -A.im[j + i * s]; } } } return A; };
    CM A = mk(n, 1), B = kind == 3 ? A : mk(m, 2), C = CM::sym("c", n, m, cx); if (kind == 3 && cx) return;
    Element a = el(A), b = el(B), c = el(C), keep = c; if (kind == 3 && n != m) return;
    Element x = kind == 3 ? c.SYL(a, a) : c.SYL(a, b); CM X = rd(x); eqCC(A * X + X * B, C, "sylvester"); eqC(c, C, "sylvester:unchanged"); eqC(a, A, "sylvester:unchanged"); eqC(b, B, "sylvester:unchanged"); eqC(keep, C, "sylvester:copy_unchanged");
}
void sylsym(int kind) // symbolic coefficients: diagonal / triangular
{
    CM A(2, 2), B(2, 2), C = CM::sym("c", 2, 2, false); for (int i = 0; i < 2; i++) { A.re[3 * i] = sym_pos(sym_fmt("a%d", i).c_str()); B.re[3 * i] = sym_pos(sym_fmt("b%d", i).c_str()); } if (kind) { A.re[2] = sym_real("au"); B.re[2] = sym_real("bu"); }
    Element a = el(A), b = el(B), c = el(C); CM X = rd(c.SYL(a, b)); eqCC(A * X + X * B, C, "sylvester_symbolic");
}
struct Init
{
    static void reg(const std::string &n, std::function<void()> f, int tier = 0) { sym_register_case("dec_" + n, [f]() { sym_div0_assume(true); f(); }, tier); }
    Init()
    {
        for (int cx = 0; cx < 2; cx++)
        {
            const char *s = cx ? "_cx" : "";
            for (int sh = 1; sh <= 3; sh++) { reg(sym_fmt("solve1_%d%s", sh, s), [=] { solve(cx, 1, -1, sh); }); reg(sym_fmt("solve2_%d%s", sh, s), [=] { solve(cx, 2, -1, sh); }, cx && sh != 1); for (int k = 0; k < 3; k++) { reg(sym_fmt("solve2n%d_%d%s", k, sh, s), [=] { solve(cx, 2, k, sh); }); reg(sym_fmt("solve3n%d_%d%s", k, sh, s), [=] { solve(cx, 3, k, sh); }); } }
            for (int n = 1; n <= 3; n++) reg(sym_fmt("chol%d%s", n, s), [=] { chol(cx, n); }, n == 3 && cx);
            reg(sym_fmt("qr21%s", s), [=] { qr(cx, 2, 1, -1); }, cx); reg(sym_fmt("qr11%s", s), [=] { qr(cx, 1, 1, -1); }); reg(sym_fmt("qr12%s", s), [=] { qr(cx, 1, 2, 1); });
            for (int k = 0; k < 2; k++) { reg(sym_fmt("qr22n%d%s", k, s), [=] { qr(cx, 2, 2, k); }); reg(sym_fmt("qr32n%d%s", k, s), [=] { qr(cx, 3, 2, k); }); reg(sym_fmt("qr23n%d%s", k, s), [=] { qr(cx, 2, 3, k); }); reg(sym_fmt("qr31n%d%s", k, s), [=] { qr(cx, 3, 1, k); }); }
            static const int mm[] = {1, 2, 3, 2, 3, 3}, nn[] = {1, 2, 2, 3, 1, 3}; for (int i = 0; i < 6; i++) for (int k = 0; k < 2; k++) reg(sym_fmt("svd%d%dn%d%s", mm[i], nn[i], k, s), [=] { svd(cx, mm[i], nn[i], k + 1); });
            for (int n = 1; n <= 3; n++) for (int w = 0; w < 3; w++) reg(sym_fmt("%s%d%s", w == 0 ? "eig" : w == 1 ? "exp" : "log", n, s), [=] { eig(cx, n, 1, w); });
            for (int k = 0; k < (cx ? 2 : 5); k++) reg(sym_fmt("schur%d%s", k, s), [=] { schur(cx, k); });
            for (int k = 0; k < 4; k++) if (!(cx && k > 1)) { reg(sym_fmt("syl22_%d%s", k, s), [=] { syl(cx, 2, 2, k); }); if (k < 3) { reg(sym_fmt("syl21_%d%s", k, s), [=] { syl(cx, 2, 1, k); }); reg(sym_fmt("syl12_%d%s", k, s), [=] { syl(cx, 1, 2, k); }); if (k == 0) { reg(sym_fmt("syl32_%d%s", k, s), [=] { syl(cx, 3, 2, k); }); } } }
        }
        reg("sylsym0", [] { sylsym(0); }); reg("sylsym1", [] { sylsym(1); });
    }
} initdec;
}
