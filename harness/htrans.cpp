// Haar wavelet transform, 2-D discrete Fourier transform and sparse-dense products against their definitions.
#include "prelude.h"
#include "cref.h"
#include "Others/wavelet/wavelet.h"
namespace {
double rt2() { double x[] = {2}; volatile double *p = x; return sqrt(*p); }
int pow2(int n) { int k = 1; while (2 * k <= n) k *= 2; return k; }
// matrix of the one-dimensional transform of length n: on the leading 2^L entries the orthonormal Haar basis, identity on the rest
CM haarmat(int n)
{
    CM H(n, n, true); int N = pow2(n); double r = rt2(); auto pw = [&](int e) { double v = 1; for (int i = 0; i < e; i++) v = v / r; return v; };
    int L = 0; while ((1 << L) < N) L++;
    for (int j = 0; j < N; j++) H.re[0 + j * n] = pw(L);
    for (int l = 0; l < L; l++) for (int i = 0; i < (1 << l); i++) { int len = N >> l; for (int j = 0; j < len; j++) H.re[(1 << l) + i + (i * len + j) * n] = (j < len / 2 ? 1 : -1) * pw(L - l); }
    for (int i = N; i < n; i++) H.re[i + i * n] = 1;
    return H;
}
std::vector<realdpcomplex> arr(const CM &X) { std::vector<realdpcomplex> v(X.n()); for (int i = 0; i < X.n(); i++) { v[i].r = X.re[i]; v[i].i = X.im[i]; } return v; }
void eqa(const std::vector<realdpcomplex> &v, const CM &X, const char *l) { for (int i = 0; i < X.n(); i++) { sym_eq(v[i].r, X.re[i], "%s", l); sym_eq(v[i].i, X.im[i], "%s:imag", l); } }
void haar(int n1, int n2)
{
    CM X = CM::sym("x", n1, n2, true), A = haarmat(n1), B = haarmat(n2), Y = A * X * B.t(), Z = A.t() * X * B; Element x = el(X), c = x;
    Element y = x.GetHaarFWT(); eqC(y, Y, "haar"); Element z = x.GetInvHaarFWT(); eqC(z, Z, "inverse_haar"); eqC(y.GetInvHaarFWT(), X, "haar_then_inverse"); eqC(z.GetHaarFWT(), X, "inverse_then_haar"); eqC(x, X, "haar:unchanged"); eqC(c, X, "haar:copy_unchanged");
    CM W = CM::sym("w", n1, n2, true); Element w = el(W); sym_eq(y.DotProduct(w.GetHaarFWT()), x.DotProduct(w), "haar_orthogonal");
    std::vector<realdpcomplex> v = arr(X); haarFWT_2d(n1, n2, v.data()); eqa(v, Y, "array_haar2d"); v = arr(X); haarFWT_2d_inverse(n1, n2, v.data()); eqa(v, Z, "array_haar2d_inverse");
    if (n2 == 1) { v = arr(X); haarFWT_1d(n1, v.data()); eqa(v, Y, "array_haar1d"); v = arr(X); haarFWT_1d_inverse(n1, v.data()); eqa(v, Z, "array_haar1d_inverse"); }
}
#ifdef ROPTLIB_WITH_FFTW
void cs(int num, int den, double &c, double &s)   // cos, sin of 2 pi num / den for den dividing 12 or equal to 8
{
    num = ((num % den) + den) % den; int k = num * 24 / den; double r2 = rt2(), x[] = {3}; volatile double *p = x; double r3 = sqrt(*p);
    auto co = [&](int q) -> double { q = ((q % 24) + 24) % 24; if (q > 12) q = 24 - q; double sg = 1; if (q > 6) { q = 12 - q; sg = -1; } return sg * (q == 0 ? 1. : q == 6 ? 0. : q == 4 ? .5 : q == 2 ? r3 / 2 : q == 3 ? r2 / 2 : q == 1 ? (r2 * r3 + r2) / 4 : (r2 * r3 - r2) / 4); };
    c = co(k); s = co(k - 6);
}
CM dft(int n, int sign) { CM F(n, n, true); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double c, s; cs(i * j, n, c, s); F.re[i + j * n] = c; F.im[i + j * n] = sign * s; } return F; }
void fft(int n1, int n2)
{
    int back = sym_choice("direction", 2), dir = back ? FFTW_BACKWARD : FFTW_FORWARD, sg = back ? 1 : -1; CM X = CM::sym("x", n1, n2, true), Y = dft(n1, sg) * X * dft(n2, sg).t(); Element x = el(X), c = x;
    Element y = x.GetFFT2D(dir); eqC(y, Y, "fft"); eqC(x, X, "fft:unchanged"); eqC(c, X, "fft:copy_unchanged"); Element z = y.GetFFT2D(back ? FFTW_FORWARD : FFTW_BACKWARD); eqC(z, scal(n1 * n2, 0, X), "fft_inverse");
    Element r(n1, n2, "complex"); Element q = x.FFT2D(dir, &r); eqC(r, Y, "fft_into"); eqC(q, Y, "fft_into:returned"); Element t = x; Element F(1); F.ObtainWriteEntireData()[0] = 1; t.AddToFields("f", F); x.FFT2D(dir, &t); eqC(t, Y, "fft_into_copy"); sym_true(!t.FieldsExist("f"), "fft_into_copy:result_carries_no_old_data"); eqC(x, X, "fft_into_copy:unchanged"); eqC(c, X, "fft_into_copy:copy_unchanged");
}
#endif
struct Sp
{
    int m, n, nz; bool cx; std::vector<integer> ir, jc; std::vector<double> vr, vi; CM D;
    Sp(const char *nm, int m_, int n_, int nz_, bool c, bool freepos, int pat) : m(m_), n(n_), nz(nz_), cx(c), D(m_, n_, c)
    {
        for (int k = 0; k < nz; k++)
        {
            int p = freepos ? sym_choice(sym_fmt("%spos%d", nm, k).c_str(), m * n) : (pat * 3 + k * (pat + 2)) % (m * n); ir.push_back(p % m); jc.push_back(p / m); vr.push_back(sym_real(sym_fmt("%sv%d", nm, k).c_str())); vi.push_back(cx ? sym_real(sym_fmt("%sw%d", nm, k).c_str()) : 0);
            D.re[p] += vr[k]; if (cx) D.im[p] += vi[k];
        }
    }
    SparseMatrix *make() { if (!cx) return new SparseMatrix(m, n, ir.data(), jc.data(), vr.data(), nz); std::vector<realdpcomplex> z(nz); for (int k = 0; k < nz; k++) { z[k].r = vr[k]; z[k].i = vi[k]; } return new SparseMatrix(m, n, ir.data(), jc.data(), z.data(), nz); }
};
void mult(SparseMatrix *S, const Sp &s, int q, const char *tag)
{
    CM B = CM::sym(sym_fmt("%sb", tag).c_str(), s.n, q, s.cx), L = CM::sym(sym_fmt("%sl", tag).c_str(), q, s.m, s.cx); Element b = el(B), l = el(L); sym_true(S->Getrow() == s.m && S->Getcol() == s.n && S->Getiscomplex() == s.cx, "sparse_size");
    eqC(*S * b, s.D * B, "sparse_times_dense"); eqC(l * *S, L * s.D, "dense_times_sparse"); eqC(b, B, "sparse:unchanged"); eqC(l, L, "sparse:unchanged");
}
void sparse(bool cx, int m, int n, int nz, int q, bool fr, int pat) { Sp s("s", m, n, nz, cx, fr, pat); SparseMatrix *S = s.make(); mult(S, s, q, ""); mult(S, s, q, "again"); delete S; }
void several(bool cx)
{   // matrices created and destroyed in any order keep their own entries
    Sp a("a", 2, 2, 2, cx, false, 1), b("b", 2, 3, 3, cx, false, 2), c("c", 3, 1, 2, cx, false, 3), d("d", 2, 2, 2, !cx, false, 1); SparseMatrix *A = a.make(), *B = b.make(); int k = sym_choice("order", 3);
    if (k == 0) { delete A; SparseMatrix *C = c.make(), *D = d.make(); mult(B, b, 1, "b"); mult(C, c, 2, "c"); mult(D, d, 1, "d"); delete B; mult(C, c, 1, "c2"); delete C; delete D; }
    else if (k == 1) { delete B; SparseMatrix *C = c.make(); mult(A, a, 1, "a"); mult(C, c, 1, "c"); delete A; SparseMatrix *D = d.make(); mult(C, c, 2, "c2"); mult(D, d, 1, "d"); delete C; delete D; }
    else { SparseMatrix *C = c.make(); mult(A, a, 1, "a"); mult(B, b, 2, "b"); mult(C, c, 1, "c"); delete C; mult(B, b, 1, "b2"); delete B; mult(A, a, 2, "a2"); delete A; }
}
struct Init
{
    static void reg(const std::string &n, std::function<void()> f, int tier = 0) { sym_register_case("trans_" + n, [f]() { sym_div0_assume(true); f(); }, tier); }
    Init()
    {
        static const int hm[][2] = {{1, 1}, {2, 1}, {3, 1}, {4, 1}, {5, 1}, {6, 1}, {8, 1}, {9, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 6}, {2, 2}, {2, 3}, {3, 2}, {2, 4}, {4, 2}, {3, 3}, {4, 3}, {3, 4}, {4, 4}, {5, 3}, {3, 5}};
        for (auto &h : hm) reg(sym_fmt("haar%dx%d", h[0], h[1]), [=] { haar(h[0], h[1]); }); reg("haar16x1", [] { haar(16, 1); }, 1); reg("haar8x4", [] { haar(8, 4); }, 1); reg("haar1x16", [] { haar(1, 16); }, 1); reg("haar7x6", [] { haar(7, 6); }, 1);
#ifdef ROPTLIB_WITH_FFTW
        static const int fm[][2] = {{1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 4}, {2, 2}, {2, 3}, {3, 2}, {3, 4}, {4, 2}, {4, 4}, {6, 2}}; for (auto &h : fm) reg(sym_fmt("fft%dx%d", h[0], h[1]), [=] { fft(h[0], h[1]); }); reg("fft8x3", [] { fft(8, 3); }, 1); reg("fft6x6", [] { fft(6, 6); }, 1); reg("fft12x2", [] { fft(12, 2); }, 1);
#endif
        for (int cx = 0; cx < 2; cx++)
        {
            const char *s = cx ? "_cx" : "";
            for (int nz = 1; nz <= 2; nz++) { reg(sym_fmt("sparse23_%d%s", nz, s), [=] { sparse(cx, 2, 3, nz, 2, true, 0); }); reg(sym_fmt("sparse32_%d%s", nz, s), [=] { sparse(cx, 3, 2, nz, 1, true, 0); }); reg(sym_fmt("sparse13_%d%s", nz, s), [=] { sparse(cx, 1, 3, nz, 2, true, 0); }); }
            reg(sym_fmt("sparse22_3%s", s), [=] { sparse(cx, 2, 2, 3, 1, true, 0); }); reg(sym_fmt("sparse23_3%s", s), [=] { sparse(cx, 2, 3, 3, 1, true, 0); }, 1);
            for (int p = 1; p < 4; p++) reg(sym_fmt("sparse33_p%d%s", p, s), [=] { sparse(cx, 3, 3, 5, 2, false, p); }); reg(sym_fmt("several%s", s), [=] { several(cx); });
        }
    }
} inittrans;
}
