// Executable model of the BLAS / LAPACK / FFTW routines ROPTLIB calls. It is compiled and instrumented like the
// repository sources, so that every floating operation is symbolic. Routines whose result is unique follow the
// reference algorithm; routines with freedom (LU pivots, signs of eigenvectors ...) return one result that
// satisfies the routine's contract.
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <algorithm>
typedef int integer;
extern "C" { bool sym_prov_zero(double); void sym_unsupported(const char *); void sym_xerbla(const char *, int); }
static bool g_qr_throw = false; void sym_qr_throw(bool on) { g_qr_throw = on; }
struct cplx { double r, i; };
static inline cplx operator+(cplx a, cplx b) { return {a.r + b.r, a.i + b.i}; }
static inline cplx operator-(cplx a, cplx b) { return {a.r - b.r, a.i - b.i}; }
static inline cplx operator*(cplx a, cplx b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
static inline cplx operator/(cplx a, cplx b) { double d = b.r * b.r + b.i * b.i; return {(a.r * b.r + a.i * b.i) / d, (a.i * b.r - a.r * b.i) / d}; }
static inline double cj(double a) { return a; }
static inline cplx cj(cplx a) { return {a.r, -a.i}; }
static inline bool nz(double a) { return a != 0; }
static inline bool nz(cplx a) { return a.r != 0 || a.i != 0; }
extern "C" bool sym_isplain(double);
static inline bool sz(double a) { return sym_isplain(a) && a == 0; }
static inline bool sz(cplx a) { return sz(a.r) && sz(a.i); }
static inline bool pz(double a) { return sym_prov_zero(a); }
static inline bool pz(cplx a) { return sym_prov_zero(a.r) && sym_prov_zero(a.i); }
static inline double mk(double x, double *) { return x; }
static inline cplx mk(double x, cplx *) { return {x, 0}; }
#define C_(x) mk((x), (T *)0)
static inline double abs2(double a) { return a * a; }
static inline double abs2(cplx a) { return a.r * a.r + a.i * a.i; }
static inline char up(const char *c) { char x = *c; return x >= 'a' && x <= 'z' ? x - 32 : x; }
static inline int mx(int a, int b) { return a > b ? a : b; }
static inline int mn(int a, int b) { return a < b ? a : b; }
#define CHK(cond, name, k) do { if (!(cond)) { sym_xerbla(name, k); return 0; } } while (0)

template <class T> static int copy(integer *n, T *x, integer *ix, T *y, integer *iy) { int a = *ix < 0 ? (1 - *n) * *ix : 0, b = *iy < 0 ? (1 - *n) * *iy : 0; for (int i = 0; i < *n; i++, a += *ix, b += *iy) y[b] = x[a]; return 0; }
template <class T> static int axpy(integer *n, T *al, T *x, integer *ix, T *y, integer *iy)
{ int a = *ix < 0 ? (1 - *n) * *ix : 0, b = *iy < 0 ? (1 - *n) * *iy : 0; for (int i = 0; i < *n; i++, a += *ix, b += *iy) y[b] = y[b] + *al * x[a]; return 0; }
template <class T> static int scal(integer *n, T *al, T *x, integer *ix) { if (*ix <= 0) return 0; for (int i = 0; i < *n; i++) x[i * *ix] = *al * x[i * *ix]; return 0; }
template <class T> static T dot(integer *n, T *x, integer *ix, T *y, integer *iy, bool c)
{ T s = C_(0.); int a = *ix < 0 ? (1 - *n) * *ix : 0, b = *iy < 0 ? (1 - *n) * *iy : 0; for (int i = 0; i < *n; i++, a += *ix, b += *iy) s = s + (c ? cj(x[a]) : x[a]) * y[b]; return s; }
template <class T> static double nrm2(integer *n, T *x, integer *ix) { double s = 0; for (int i = 0; i < *n; i++) s += abs2(x[i * *ix]); return sqrt(s); }
template <class T> static int gemm(char *ta, char *tb, integer *m, integer *n, integer *k, T *al, T *a, integer *lda, T *b, integer *ldb, T *be, T *c, integer *ldc)
{
    char A = up(ta), B = up(tb); CHK(A == 'N' || A == 'T' || A == 'C', "gemm", 1); CHK(B == 'N' || B == 'T' || B == 'C', "gemm", 2);
    CHK(*m >= 0, "gemm", 3); CHK(*n >= 0, "gemm", 4); CHK(*k >= 0, "gemm", 5);
    CHK(*lda >= mx(1, A == 'N' ? *m : *k), "gemm", 8); CHK(*ldb >= mx(1, B == 'N' ? *k : *n), "gemm", 10); CHK(*ldc >= mx(1, *m), "gemm", 13);
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++)
    {
        T s = C_(0.);
        for (int l = 0; l < *k; l++)
        {
            T x = A == 'N' ? a[i + l * *lda] : A == 'T' ? a[l + i * *lda] : cj(a[l + i * *lda]);
            T y = B == 'N' ? b[l + j * *ldb] : B == 'T' ? b[j + l * *ldb] : cj(b[j + l * *ldb]);
            s = s + x * y;
        }
        s = *al * s; c[i + j * *ldc] = !sz(*be) ? s + *be * c[i + j * *ldc] : s;
    }
    return 0;
}
template <class T> static int gemv(char *ta, integer *m, integer *n, T *al, T *a, integer *lda, T *x, integer *ix, T *be, T *y, integer *iy)
{
    char A = up(ta); CHK(A == 'N' || A == 'T' || A == 'C', "gemv", 1); CHK(*lda >= mx(1, *m), "gemv", 6);
    int ny = A == 'N' ? *m : *n, nx = A == 'N' ? *n : *m;
    for (int i = 0; i < ny; i++) { T s = C_(0.); for (int j = 0; j < nx; j++) { T e = A == 'N' ? a[i + j * *lda] : A == 'T' ? a[j + i * *lda] : cj(a[j + i * *lda]); s = s + e * x[j * *ix]; } s = *al * s; y[i * *iy] = !sz(*be) ? s + *be * y[i * *iy] : s; }
    return 0;
}
template <class T> static int symv(char *uplo, integer *n, T *al, T *a, integer *lda, T *x, integer *ix, T *be, T *y, integer *iy)
{
    bool L = up(uplo) == 'L';
    for (int i = 0; i < *n; i++) { T s = C_(0.); for (int j = 0; j < *n; j++) { T e = (L ? i >= j : i <= j) ? a[i + j * *lda] : a[j + i * *lda]; s = s + e * x[j * *ix]; } s = *al * s; y[i * *iy] = !sz(*be) ? s + *be * y[i * *iy] : s; }
    return 0;
}
template <class T> static int ger(integer *m, integer *n, T *al, T *x, integer *ix, T *y, integer *iy, T *a, integer *lda, bool c)
{ CHK(*m >= 0, "ger", 1); CHK(*n >= 0, "ger", 2); CHK(*lda >= mx(1, *m), "ger", 9); for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) a[i + j * *lda] = a[i + j * *lda] + *al * x[i * *ix] * (c ? cj(y[j * *iy]) : y[j * *iy]); return 0; }
// triangular solve op(A) X = B (left) or X op(A) = B (right)
template <class T> static int trs(bool left, bool upper, char tr, bool unit, int m, int n, T *a, int lda, T *b, int ldb)
{
    int k = left ? m : n; auto el = [&](int i, int j) -> T { if (i == j && unit) return C_(1.); T v = tr == 'N' ? a[i + j * lda] : a[j + i * lda]; return tr == 'C' ? cj(v) : v; };
    bool up_ = (tr == 'N') == upper;     // op(A) upper
    if (left)
        for (int c = 0; c < n; c++)
            for (int s = 0; s < k; s++)
            {
                int i = up_ ? k - 1 - s : s; T v = b[i + c * ldb];
                if (up_) for (int j = i + 1; j < k; j++) v = v - el(i, j) * b[j + c * ldb]; else for (int j = 0; j < i; j++) v = v - el(i, j) * b[j + c * ldb];
                b[i + c * ldb] = unit ? v : v / el(i, i);
            }
    else
        for (int r = 0; r < m; r++)
            for (int s = 0; s < k; s++)
            {
                int j = up_ ? s : k - 1 - s; T v = b[r + j * ldb];
                if (up_) for (int i = 0; i < j; i++) v = v - b[r + i * ldb] * el(i, j); else for (int i = j + 1; i < k; i++) v = v - b[r + i * ldb] * el(i, j);
                b[r + j * ldb] = unit ? v : v / el(j, j);
            }
    return 0;
}
template <class T> static int trsm(char *side, char *uplo, char *ta, char *diag, integer *m, integer *n, T *al, T *a, integer *lda, T *b, integer *ldb)
{
    CHK(*ldb >= mx(1, *m), "trsm", 11); CHK(*lda >= mx(1, up(side) == 'L' ? *m : *n), "trsm", 9);
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) b[i + j * *ldb] = *al * b[i + j * *ldb];
    return trs(up(side) == 'L', up(uplo) == 'U', up(ta), up(diag) == 'U', *m, *n, a, *lda, b, *ldb);
}
template <class T> static int trtrs(char *uplo, char *tr, char *diag, integer *n, integer *nrhs, T *a, integer *lda, T *b, integer *ldb, integer *info)
{
    *info = 0; CHK(*lda >= mx(1, *n), "trtrs", 7); CHK(*ldb >= mx(1, *n), "trtrs", 9);
    if (up(diag) != 'U') for (int i = 0; i < *n; i++) if (!nz(a[i + i * *lda])) { *info = i + 1; return 0; }
    return trs(true, up(uplo) == 'U', up(tr), up(diag) == 'U', *n, *nrhs, a, *lda, b, *ldb);
}
template <class T> static bool plainnz(T *p) { return !pz(*p); }
extern "C" bool sym_isplain(double);
static bool plain(double a) { return sym_isplain(a); }
static bool plain(cplx a) { return sym_isplain(a.r) && sym_isplain(a.i); }
template <class T> static int getrf(integer *m, integer *n, T *a, integer *lda, integer *ipiv, integer *info)
{
    *info = 0; CHK(*lda >= mx(1, *m), "getrf", 4);
    int k = mn(*m, *n);
    for (int j = 0; j < k; j++)
    {
        int p = -1; double best = 0;
        bool allplain = true; for (int i = j; i < *m; i++) if (!plain(a[i + j * *lda])) allplain = false;
        if (allplain) { for (int i = j; i < *m; i++) { double q = abs2(a[i + j * *lda]); if (q > best) { best = q; p = i; } } }
        else
        {
            for (int i = j; i < *m && p < 0; i++) if (plain(a[i + j * *lda]) && nz(a[i + j * *lda])) p = i;
            for (int i = j; i < *m && p < 0; i++) if (!pz(a[i + j * *lda]) && nz(a[i + j * *lda])) p = i;
        }
        if (p < 0) { ipiv[j] = j + 1; if (!*info) *info = j + 1; continue; }
        ipiv[j] = p + 1;
        if (p != j) for (int c = 0; c < *n; c++) std::swap(a[j + c * *lda], a[p + c * *lda]);
        for (int i = j + 1; i < *m; i++)
        {
            a[i + j * *lda] = a[i + j * *lda] / a[j + j * *lda];
            for (int c = j + 1; c < *n; c++) a[i + c * *lda] = a[i + c * *lda] - a[i + j * *lda] * a[j + c * *lda];
        }
    }
    return 0;
}
template <class T> static int getrs(char *tr, integer *n, integer *nrhs, T *a, integer *lda, integer *ipiv, T *b, integer *ldb, integer *info)
{
    *info = 0; char t = up(tr); CHK(*lda >= mx(1, *n), "getrs", 5); CHK(*ldb >= mx(1, *n), "getrs", 8);
    auto sw = [&](int i) { if (ipiv[i] - 1 != i) for (int c = 0; c < *nrhs; c++) std::swap(b[i + c * *ldb], b[ipiv[i] - 1 + c * *ldb]); };
    if (t == 'N') { for (int i = 0; i < *n; i++) sw(i); trs(true, false, 'N', true, *n, *nrhs, a, *lda, b, *ldb); trs(true, true, 'N', false, *n, *nrhs, a, *lda, b, *ldb); }
    else { trs(true, true, t, false, *n, *nrhs, a, *lda, b, *ldb); trs(true, false, t, true, *n, *nrhs, a, *lda, b, *ldb); for (int i = *n - 1; i >= 0; i--) sw(i); }
    return 0;
}
template <class T> static int gesv(integer *n, integer *nrhs, T *a, integer *lda, integer *ipiv, T *b, integer *ldb, integer *info) { getrf(n, n, a, lda, ipiv, info); if (*info == 0) getrs((char *)"N", n, nrhs, a, lda, ipiv, b, ldb, info); return 0; }
template <class T> static int getri(integer *n, T *a, integer *lda, integer *ipiv, T *work, integer *lwork, integer *info)
{
    if (*lwork == -1) { work[0] = C_(*n); *info = 0; return 0; }
    std::vector<T> e(*n * *n, C_(0.)); for (int i = 0; i < *n; i++) e[i + i * *n] = C_(1.);
    for (int i = 0; i < *n; i++) if (!nz(a[i + i * *lda])) { *info = i + 1; return 0; }
    getrs((char *)"N", n, n, a, lda, ipiv, e.data(), n, info);
    for (int j = 0; j < *n; j++) for (int i = 0; i < *n; i++) a[i + j * *lda] = e[i + j * *n];
    return 0;
}
static double re(double a) { return a; } static double re(cplx a) { return a.r; }
static double im(double) { return 0; } static double im(cplx a) { return a.i; }
template <class T> static int potrf(char *uplo, integer *n, T *a, integer *lda, integer *info)
{
    *info = 0; CHK(*lda >= mx(1, *n), "potrf", 4); bool L = up(uplo) == 'L'; int ld = *lda;
    for (int j = 0; j < *n; j++)
    {
        double s = re(a[j + j * ld]); for (int k = 0; k < j; k++) s -= abs2(L ? a[j + k * ld] : a[k + j * ld]);
        if (!(s > 0)) { *info = j + 1; return 0; }
        s = sqrt(s); a[j + j * ld] = C_(s);
        for (int i = j + 1; i < *n; i++)
        {
            T v = L ? a[i + j * ld] : a[j + i * ld];
            for (int k = 0; k < j; k++) v = v - (L ? a[i + k * ld] * cj(a[j + k * ld]) : cj(a[k + j * ld]) * a[k + i * ld]);
            v = v / C_(s); (L ? a[i + j * ld] : a[j + i * ld]) = v;
        }
    }
    return 0;
}
template <class T> static int potrs(char *uplo, integer *n, integer *nrhs, T *a, integer *lda, T *b, integer *ldb, integer *info)
{
    *info = 0;
    if (up(uplo) == 'L') { trs(true, false, 'N', false, *n, *nrhs, a, *lda, b, *ldb); trs(true, false, 'C', false, *n, *nrhs, a, *lda, b, *ldb); }
    else { trs(true, true, 'C', false, *n, *nrhs, a, *lda, b, *ldb); trs(true, true, 'N', false, *n, *nrhs, a, *lda, b, *ldb); }
    return 0;
}
template <class T> static int potri(char *uplo, integer *n, T *a, integer *lda, integer *info)
{
    std::vector<T> e(*n * *n, C_(0.)); for (int i = 0; i < *n; i++) e[i + i * *n] = C_(1.);
    potrs(uplo, n, n, a, lda, e.data(), n, info); bool L = up(uplo) == 'L';
    for (int j = 0; j < *n; j++) for (int i = 0; i < *n; i++) if (L ? i >= j : i <= j) a[i + j * *lda] = e[i + j * *n];
    return 0;
}
// Householder reflector (dlarfg / zlarfg)
template <class T> static void larfg(int n, T &alpha, T *x, T &tau)
{
    double xn = 0; for (int i = 0; i < n - 1; i++) xn += abs2(x[i]);
    if (!(xn != 0) && !(im(alpha) != 0)) { tau = C_(0.); return; }
    double beta = sqrt(xn + abs2(alpha)); if (re(alpha) >= 0) beta = -beta;
    T sc = C_(1.) / (alpha - C_(beta));
    tau = (C_(beta) - alpha) / C_(beta);
    for (int i = 0; i < n - 1; i++) x[i] = x[i] * sc;
    alpha = C_(beta);
}
// C := H C or C H, H = I - tau v v^H, v given explicitly
template <class T> static void larf(bool left, int m, int n, const T *v, T tau, T *c, int ldc)
{
    if (pz(tau)) return;
    if (left) for (int j = 0; j < n; j++) { T s = C_(0.); for (int i = 0; i < m; i++) s = s + cj(v[i]) * c[i + j * ldc]; s = tau * s; for (int i = 0; i < m; i++) c[i + j * ldc] = c[i + j * ldc] - v[i] * s; }
    else for (int i = 0; i < m; i++) { T s = C_(0.); for (int j = 0; j < n; j++) s = s + c[i + j * ldc] * v[j]; s = tau * s; for (int j = 0; j < n; j++) c[i + j * ldc] = c[i + j * ldc] - s * cj(v[j]); }
}
template <class T> static int larfx(char *side, integer *m, integer *n, T *v, T *tau, T *c, integer *ldc, T *) { if (!nz(*tau)) return 0; larf(up(side) == 'L', *m, *n, v, *tau, c, *ldc); return 0; }
template <class T> static int geqp3(integer *m, integer *n, T *a, integer *lda, integer *jpvt, T *tau, T *work, integer *lwork, integer *info)
{
    *info = 0; if (*lwork == -1) { work[0] = C_(3. * *n + 1); return 0; } CHK(*lda >= mx(1, *m), "geqp3", 4);
    int nf = 0, k = mn(*m, *n);
    for (int j = 0; j < *n; j++) if (jpvt[j] != 0) { if (j != nf) { for (int i = 0; i < *m; i++) std::swap(a[i + j * *lda], a[i + nf * *lda]); jpvt[j] = jpvt[nf]; } jpvt[nf] = j + 1; nf++; } else jpvt[j] = j + 1;
    std::vector<T> v(*m);
    for (int j = 0; j < k; j++)
    {
        if (j >= nf)
        {
            int p = j; double best = -1; for (int c = j; c < *n; c++) { double q = 0; for (int i = j; i < *m; i++) q += abs2(a[i + c * *lda]); if (c == j || q > best) { best = q; p = c; } }
            if (p != j) { for (int i = 0; i < *m; i++) std::swap(a[i + j * *lda], a[i + p * *lda]); std::swap(jpvt[j], jpvt[p]); }
        }
        larfg(*m - j, a[j + j * *lda], &a[j + 1 + j * *lda], tau[j]);
        v[j] = C_(1.); for (int i = j + 1; i < *m; i++) v[i] = a[i + j * *lda];
        if (j + 1 < *n) larf(true, *m - j, *n - j - 1, &v[j], cj(tau[j]), &a[j + (j + 1) * *lda], *lda);
    }
    return 0;
}
template <class T> static void hv(int j, int nq, T *a, int lda, std::vector<T> &v) { v.assign(nq, C_(0.)); v[j] = C_(1.); for (int i = j + 1; i < nq; i++) v[i] = a[i + j * lda]; }
template <class T> static int orgqr(integer *m, integer *n, integer *k, T *a, integer *lda, T *tau, T *work, integer *lwork, integer *info)
{
    *info = 0; if (*lwork == -1) { work[0] = C_(*n > 1 ? *n : 1); return 0; } CHK(*n <= *m, "orgqr", 2); CHK(*k <= *n, "orgqr", 3); CHK(*lda >= mx(1, *m), "orgqr", 5);
    std::vector<T> q(*m * *n, C_(0.)), v; for (int j = 0; j < *n; j++) q[j + j * *m] = C_(1.);
    for (int j = *k - 1; j >= 0; j--) { hv(j, *m, a, *lda, v); larf(true, *m, *n, v.data(), tau[j], q.data(), *m); }
    for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) a[i + j * *lda] = q[i + j * *m];
    return 0;
}
template <class T> static int ormqr(char *side, char *trans, integer *m, integer *n, integer *k, T *a, integer *lda, T *tau, T *c, integer *ldc, T *work, integer *lwork, integer *info, bool cx)
{
    *info = 0; bool L = up(side) == 'L'; char t = up(trans); int nq = L ? *m : *n;
    CHK(t == 'N' || t == (cx ? 'C' : 'T'), "ormqr", 2); CHK(*k <= nq, "ormqr", 5); CHK(*lda >= mx(1, nq), "ormqr", 7); CHK(*ldc >= mx(1, *m), "ormqr", 10);
    if (*lwork == -1) { work[0] = C_(1. * mx(1, L ? *n : *m)); return 0; }
    std::vector<T> v; bool notran = t == 'N', fwd = L != notran;
    for (int s = 0; s < *k; s++) { int j = fwd ? s : *k - 1 - s; hv(j, nq, a, *lda, v); larf(L, *m, *n, v.data(), notran ? tau[j] : cj(tau[j]), c, *ldc); }
    return 0;
}
// ---- registered decompositions (witnesses supplied by harnesses, checked entry by entry against the argument)
struct EigReg { int n; bool cx; std::vector<cplx> Q; std::vector<double> D; };
struct SvdReg { int m, n, k; bool cx; std::vector<cplx> U, V; std::vector<double> S; };
static std::vector<EigReg> &eigs() { static std::vector<EigReg> e; return e; }
static std::vector<SvdReg> &svds() { static std::vector<SvdReg> e; return e; }
void sym_register_eig(int n, const double *Q, const double *D) { EigReg e{n, false, {}, {}}; for (int i = 0; i < n * n; i++) e.Q.push_back({Q[i], 0}); for (int i = 0; i < n; i++) e.D.push_back(D[i]); eigs().push_back(e); }
void sym_register_eigc(int n, const double *Q, const double *D) { EigReg e{n, true, {}, {}}; for (int i = 0; i < n * n; i++) e.Q.push_back({Q[2 * i], Q[2 * i + 1]}); for (int i = 0; i < n; i++) e.D.push_back(D[i]); eigs().push_back(e); }
// A (m x n) = U diag(S) V^T, U m x k, V n x k, S descending, k = min(m,n)
void sym_register_svd(int m, int n, const double *U, const double *S, const double *V) { int k = mn(m, n); SvdReg e{m, n, k, false, {}, {}, {}}; for (int i = 0; i < m * k; i++) e.U.push_back({U[i], 0}); for (int i = 0; i < n * k; i++) e.V.push_back({V[i], 0}); for (int i = 0; i < k; i++) e.S.push_back(S[i]); svds().push_back(e); }
void sym_register_svdc(int m, int n, const double *U, const double *S, const double *V) { int k = mn(m, n); SvdReg e{m, n, k, true, {}, {}, {}}; for (int i = 0; i < m * k; i++) e.U.push_back({U[2 * i], U[2 * i + 1]}); for (int i = 0; i < n * k; i++) e.V.push_back({V[2 * i], V[2 * i + 1]}); for (int i = 0; i < k; i++) e.S.push_back(S[i]); svds().push_back(e); }
static cplx toc(double a) { return {a, 0}; } static cplx toc(cplx a) { return a; }
static double frc(cplx a, double *) { return a.r; } static cplx frc(cplx a, cplx *) { return a; }
template <class T> static bool isdiag(int n, T *a, int lda, bool L) { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i != j && (L ? i > j : i < j) && !pz(a[i + j * lda])) return false; return true; }
// Hermitian eigen-decomposition into Q, w; a's triangle given by L; returns false if not available
template <class T> static bool symeig(int n, T *a, int lda, bool L, std::vector<T> &Q, std::vector<double> &w)
{
    Q.assign(n * n, C_(0.)); w.assign(n, 0.);
    auto el = [&](int i, int j) -> T { return (L ? i >= j : i <= j) ? a[i + j * lda] : cj(a[j + i * lda]); };
    bool allplain = true; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!plain(el(i, j))) allplain = false;
    if (isdiag(n, a, lda, L))
    {
        std::vector<int> ix(n); for (int i = 0; i < n; i++) ix[i] = i;
        for (int i = 0; i < n; i++) for (int j = 0; j + 1 < n - i; j++) if (re(el(ix[j + 1], ix[j + 1])) < re(el(ix[j], ix[j]))) std::swap(ix[j], ix[j + 1]);
        for (int j = 0; j < n; j++) { w[j] = re(el(ix[j], ix[j])); Q[ix[j] + j * n] = C_(1.); }
        return true;
    }
    for (auto &e : eigs()) if (e.n == n)
    {
        bool ok = true;
        for (int j = 0; j < n && ok; j++) for (int i = 0; i < n && ok; i++) if (L ? i >= j : i <= j)
        {
            cplx s = {0, 0}; for (int k = 0; k < n; k++) s = s + e.Q[i + k * n] * cplx{e.D[k], 0} * cj(e.Q[j + k * n]);
            if (!pz(s - toc(el(i, j)))) ok = false;
        }
        if (!ok) continue;
        std::vector<int> ix(n); for (int i = 0; i < n; i++) ix[i] = i;
        for (int i = 0; i < n; i++) for (int j = 0; j + 1 < n - i; j++) if (e.D[ix[j + 1]] < e.D[ix[j]]) std::swap(ix[j], ix[j + 1]);
        for (int j = 0; j < n; j++) { w[j] = e.D[ix[j]]; for (int i = 0; i < n; i++) Q[i + j * n] = frc(e.Q[i + ix[j] * n], (T *)0); }
        return true;
    }
    if (n == 2)
    {
        double p = re(el(0, 0)), r = re(el(1, 1)); T q = el(1, 0);     // [p conj(q); q r]
        double d = sqrt((p - r) * (p - r) + 4 * abs2(q));
        if (d == 0) { w[0] = w[1] = p; Q[0] = Q[3] = C_(1.); return true; }
        w[0] = (p + r - d) / 2; w[1] = (p + r + d) / 2;
        if (!nz(q)) { if (p <= r) { Q[0] = Q[3] = C_(1.); } else { Q[1] = Q[2] = C_(1.); } return true; }
        // eigenvector of w1: (w1 - r, q); of w0: (-conj(q), w1 - r)
        double x = w[1] - r, nn = sqrt(x * x + abs2(q));
        Q[2] = C_(x / nn); Q[3] = q / C_(nn); Q[0] = C_(-1.) * cj(q) / C_(nn); Q[1] = C_(x / nn);
        return true;
    }
    (void)allplain; return false;
}
template <class T> static int syev(char *jobz, char *uplo, integer *n, T *a, integer *lda, double *w, T *work, integer *lwork, integer *info)
{
    *info = 0; if (*lwork == -1) { work[0] = C_(3. * *n); return 0; } CHK(*lda >= mx(1, *n), "syev", 5);
    std::vector<T> Q; std::vector<double> ww;
    if (!symeig(*n, a, *lda, up(uplo) == 'L', Q, ww)) { sym_unsupported("eigen-decomposition of a symbolic matrix without witness"); return 0; }
    for (int i = 0; i < *n; i++) w[i] = ww[i];
    if (up(jobz) == 'V') for (int j = 0; j < *n; j++) for (int i = 0; i < *n; i++) a[i + j * *lda] = Q[i + j * *n];
    return 0;
}
template <class T> static int gesvd(integer *pm, integer *pn, T *a, integer *lda, double *s, T *u, integer *ldu, T *vt, integer *ldvt)
{
    int m = *pm, n = *pn, k = mn(m, n);
    auto el = [&](int i, int j) -> T { return a[i + j * *lda]; };
    for (auto &e : svds()) if (e.m == m && e.n == n)
    {
        bool ok = true;
        for (int j = 0; j < n && ok; j++) for (int i = 0; i < m && ok; i++) { cplx t = {0, 0}; for (int l = 0; l < k; l++) t = t + e.U[i + l * m] * cplx{e.S[l], 0} * cj(e.V[j + l * n]); if (!pz(t - toc(el(i, j)))) ok = false; }
        if (!ok) continue;
        for (int l = 0; l < k; l++) { s[l] = e.S[l]; for (int i = 0; i < m; i++) u[i + l * *ldu] = frc(e.U[i + l * m], (T *)0); for (int j = 0; j < n; j++) vt[l + j * *ldvt] = frc(cj(e.V[j + l * n]), (T *)0); }
        return 0;
    }
    if (k == 1)
    {
        double q = 0; int len = mx(m, n); for (int i = 0; i < len; i++) q += abs2(m == 1 ? el(0, i) : el(i, 0)); q = sqrt(q); s[0] = q; bool zero = !(q != 0);
        if (m == 1) { u[0] = C_(1.); for (int i = 0; i < len; i++) vt[i * *ldvt] = zero ? C_(i == 0 ? 1. : 0.) : el(0, i) / C_(q); }
        else { vt[0] = C_(1.); for (int i = 0; i < len; i++) u[i] = zero ? C_(i == 0 ? 1. : 0.) : el(i, 0) / C_(q); }
        return 0;
    }
    // diagonal, nonnegative or not
    bool dg = true; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i != j && !pz(el(i, j))) dg = false;
    if (dg)
    {
        std::vector<double> d(k); std::vector<T> ph(k); std::vector<int> ix(k);
        for (int i = 0; i < k; i++) { ix[i] = i; T v = el(i, i); double q = sqrt(abs2(v)); d[i] = q; ph[i] = q != 0 ? v / C_(q) : C_(1.); }
        for (int i = 0; i < k; i++) for (int j = 0; j + 1 < k - i; j++) if (d[ix[j + 1]] > d[ix[j]]) std::swap(ix[j], ix[j + 1]);
        for (int l = 0; l < k; l++) { s[l] = d[ix[l]]; for (int i = 0; i < m; i++) u[i + l * *ldu] = i == ix[l] ? ph[ix[l]] : C_(0.); for (int j = 0; j < n; j++) vt[l + j * *ldvt] = C_(j == ix[l] ? 1. : 0.); }
        return 0;
    }
    if (k == 2)
    {   // via the 2x2 Gram matrix of the short side
        bool tall = m >= n; std::vector<T> G(4); int len = mx(m, n);
        for (int p = 0; p < 2; p++) for (int q = 0; q < 2; q++) { T t = C_(0.); for (int l = 0; l < len; l++) t = t + (tall ? cj(el(l, p)) * el(l, q) : el(p, l) * cj(el(q, l))); G[p + 2 * q] = t; }
        std::vector<T> Q; std::vector<double> w; symeig(2, G.data(), 2, true, Q, w);
        if (!(w[0] > 0)) { sym_unsupported("singular value decomposition of a rank deficient symbolic matrix"); return 0; }
        for (int l = 0; l < 2; l++)
        {
            int c = 1 - l; double sv = sqrt(w[c]); s[l] = sv;
            for (int i = 0; i < 2; i++) if (tall) vt[l + i * *ldvt] = cj(Q[i + 2 * c]); else u[i + l * *ldu] = Q[i + 2 * c];
            for (int i = 0; i < len; i++) { T t = C_(0.); for (int p = 0; p < 2; p++) t = t + (tall ? el(i, p) * Q[p + 2 * c] : cj(Q[p + 2 * c]) * el(p, i)); t = t / C_(sv); if (tall) u[i + l * *ldu] = t; else vt[l + i * *ldvt] = t; }
        }
        return 0;
    }
    sym_unsupported("singular value decomposition of a symbolic matrix without witness"); return 0;
}
// Schur form
template <class T> static bool istriu(int n, T *a, int lda) { for (int j = 0; j < n; j++) for (int i = j + 1; i < n; i++) if (!pz(a[i + j * lda])) return false; return true; }
template <class T> static int gees(char *jobvs, integer *n, T *a, integer *lda, T *wr, double *wi, T *vs, integer *ldvs, T *work, integer *lwork, integer *info)
{
    *info = 0; if (*lwork == -1) { work[0] = C_(3. * *n); return 0; }
    CHK(*lda >= mx(1, *n), "gees", 6); bool V = up(jobvs) == 'V'; int N = *n; std::vector<T> Q(N * N, C_(0.)); for (int i = 0; i < N; i++) Q[i + i * N] = C_(1.);
    bool done = istriu(N, a, *lda);
    if (!done)
    {
        bool herm = true; for (int j = 0; j < N; j++) for (int i = 0; i <= j; i++) if (!pz(a[i + j * *lda] - cj(a[j + i * *lda]))) herm = false;
        std::vector<double> w; if (herm && symeig(N, a, *lda, true, Q, w)) { for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) a[i + j * *lda] = i == j ? C_(w[i]) : C_(0.); done = true; }
    }
    if (!done && N == 2 && sizeof(T) == sizeof(double))
    {   // real 2x2: real eigenvalues -> triangular
        T p = a[0], q = a[*lda], r = a[1], s = a[1 + *lda]; double tr = re(p) - re(s), disc = tr * tr + 4 * re(q) * re(r);
        if (disc >= 0)
        {
            double l = (re(p) + re(s) + sqrt(disc)) / 2; double x = l - re(s), y = re(r), nn = x * x + y * y;   // eigenvector (l-s, r); r may vanish
            if (!(nn != 0)) { x = re(q); y = l - re(p); nn = x * x + y * y; }
            nn = sqrt(nn); double c = x / nn, sn = y / nn;
            Q[0] = C_(c); Q[1] = C_(sn); Q[2] = C_(-sn); Q[3] = C_(c);
            // T = Q^T A Q
            double a00 = re(p), a01 = re(q), a10 = re(r), a11 = re(s);
            double b00 = a00 * c + a01 * sn, b10 = a10 * c + a11 * sn, b01 = -a00 * sn + a01 * c, b11 = -a10 * sn + a11 * c;
            a[0] = C_(l); a[1] = C_(0.); a[*lda] = C_(c * b01 + sn * b11); a[1 + *lda] = C_(-sn * b01 + c * b11); (void)b00; (void)b10;
            done = true;
        }
        else { done = true; }   // one 2x2 block (not standardised)
    }
    if (!done) { sym_unsupported("Schur decomposition of a symbolic matrix"); return 0; }
    for (int i = 0; i < N; i++) wr[i] = a[i + i * *lda];
    if (wi) for (int i = 0; i < N; i++) wi[i] = 0;
    if (V) for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) vs[i + j * *ldvs] = Q[i + j * N];
    return 0;
}
template <class T> static int tgsyl(char *tr, integer *ijob, integer *m, integer *n, T *a, integer *lda, T *b, integer *ldb, T *c, integer *ldc, T *d, integer *ldd, T *e, integer *lde, T *f, integer *ldf, double *scale, double *dif, T *work, integer *lwork, integer *iwork, integer *info)
{
    *info = 0; if (*lwork == -1) { work[0] = C_(2. * *m * *n + 1); return 0; }
    if (up(tr) != 'N' || *ijob != 0) { sym_unsupported("tgsyl variant"); return 0; }
    int M = *m, N = *n;
    for (int j = 0; j < M; j++) for (int i = 0; i < M; i++) if (!pz(d[i + j * *ldd] - C_(i == j ? 1. : 0.))) { sym_unsupported("tgsyl D"); return 0; }
    for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) if (!pz(e[i + j * *lde] - C_(i == j ? 1. : 0.))) { sym_unsupported("tgsyl E"); return 0; }
    for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) if (!pz(f[i + j * *ldf])) { sym_unsupported("tgsyl F"); return 0; }
    // A X - X B = C
    *scale = 1; *dif = 0;
    if (istriu(M, a, *lda) && istriu(N, b, *ldb))
        for (int j = 0; j < N; j++) for (int i = M - 1; i >= 0; i--)
        {
            T s = c[i + j * *ldc]; for (int k = i + 1; k < M; k++) s = s - a[i + k * *lda] * c[k + j * *ldc]; for (int k = 0; k < j; k++) s = s + c[i + k * *ldc] * b[k + j * *ldb];
            T dd = a[i + i * *lda] - b[j + j * *ldb]; if (!nz(dd)) { *info = 1; sym_unsupported("singular Sylvester equation"); return 0; } c[i + j * *ldc] = s / dd;
        }
    else
    {
        int K = M * N; std::vector<T> S(K * K, C_(0.)), r(K); std::vector<integer> ip(K); integer one = 1, inf;
        for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) { int row = i + j * M; r[row] = c[i + j * *ldc]; for (int k = 0; k < M; k++) S[row + (k + j * M) * K] = S[row + (k + j * M) * K] + a[i + k * *lda]; for (int k = 0; k < N; k++) S[row + (i + k * M) * K] = S[row + (i + k * M) * K] - b[k + j * *ldb]; }
        gesv(&K, &one, S.data(), &K, ip.data(), r.data(), &K, &inf); if (inf) { *info = 1; sym_unsupported("singular Sylvester equation"); return 0; }
        for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) c[i + j * *ldc] = r[i + j * M];
    }
    for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) f[i + j * *ldf] = c[i + j * *ldc];
    return 0;
}
template <class T> static int lapmt(long *fw, integer *m, integer *n, T *x, integer *ldx, integer *k)
{ std::vector<T> y(*m * *n); for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) if (*fw) y[i + j * *m] = x[i + (k[j] - 1) * *ldx]; else y[i + (k[j] - 1) * *m] = x[i + j * *ldx]; for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) x[i + j * *ldx] = y[i + j * *m]; return 0; }

typedef double D; typedef cplx Z; typedef integer I;
extern "C" {
#define BOTH(dn, zn, args, call) 
int dcopy_(I *n, D *x, I *ix, D *y, I *iy) { return copy(n, x, ix, y, iy); } int zcopy_(I *n, Z *x, I *ix, Z *y, I *iy) { return copy(n, x, ix, y, iy); }
int daxpy_(I *n, D *a, D *x, I *ix, D *y, I *iy) { return axpy(n, a, x, ix, y, iy); } int zaxpy_(I *n, Z *a, Z *x, I *ix, Z *y, I *iy) { return axpy(n, a, x, ix, y, iy); }
int dscal_(I *n, D *a, D *x, I *ix) { return scal(n, a, x, ix); } int zscal_(I *n, Z *a, Z *x, I *ix) { return scal(n, a, x, ix); }
double ddot_(I *n, D *x, I *ix, D *y, I *iy) { return dot(n, x, ix, y, iy, false); }
double dnrm2_(I *n, D *x, I *ix) { return nrm2(n, x, ix); }
int dgemm_(char *ta, char *tb, I *m, I *n, I *k, D *al, D *a, I *lda, D *b, I *ldb, D *be, D *c, I *ldc) { return gemm(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
int zgemm_(char *ta, char *tb, I *m, I *n, I *k, Z *al, Z *a, I *lda, Z *b, I *ldb, Z *be, Z *c, I *ldc) { return gemm(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
int dgemv_(char *ta, I *m, I *n, D *al, D *a, I *lda, D *x, I *ix, D *be, D *y, I *iy) { return gemv(ta, m, n, al, a, lda, x, ix, be, y, iy); }
int zgemv_(char *ta, I *m, I *n, Z *al, Z *a, I *lda, Z *x, I *ix, Z *be, Z *y, I *iy) { return gemv(ta, m, n, al, a, lda, x, ix, be, y, iy); }
int dsymv_(char *u, I *n, D *al, D *a, I *lda, D *x, I *ix, D *be, D *y, I *iy) { return symv(u, n, al, a, lda, x, ix, be, y, iy); }
int zsymv_(char *u, I *n, Z *al, Z *a, I *lda, Z *x, I *ix, Z *be, Z *y, I *iy) { return symv(u, n, al, a, lda, x, ix, be, y, iy); }
int dger_(I *m, I *n, D *al, D *x, I *ix, D *y, I *iy, D *a, I *lda) { return ger(m, n, al, x, ix, y, iy, a, lda, false); }
int zgerc_(I *m, I *n, Z *al, Z *x, I *ix, Z *y, I *iy, Z *a, I *lda) { return ger(m, n, al, x, ix, y, iy, a, lda, true); }
int zgeru_(I *m, I *n, Z *al, Z *x, I *ix, Z *y, I *iy, Z *a, I *lda) { return ger(m, n, al, x, ix, y, iy, a, lda, false); }
int dtrsm_(char *s, char *u, char *t, char *d, I *m, I *n, D *al, D *a, I *lda, D *b, I *ldb) { return trsm(s, u, t, d, m, n, al, a, lda, b, ldb); }
int ztrsm_(char *s, char *u, char *t, char *d, I *m, I *n, Z *al, Z *a, I *lda, Z *b, I *ldb) { return trsm(s, u, t, d, m, n, al, a, lda, b, ldb); }
int dtrtrs_(char *u, char *t, char *d, I *n, I *r, D *a, I *lda, D *b, I *ldb, I *info) { return trtrs(u, t, d, n, r, a, lda, b, ldb, info); }
int ztrtrs_(char *u, char *t, char *d, I *n, I *r, Z *a, I *lda, Z *b, I *ldb, I *info) { return trtrs(u, t, d, n, r, a, lda, b, ldb, info); }
int dgetrf_(I *m, I *n, D *a, I *lda, I *p, I *info) { return getrf(m, n, a, lda, p, info); } int zgetrf_(I *m, I *n, Z *a, I *lda, I *p, I *info) { return getrf(m, n, a, lda, p, info); }
int dgetrs_(char *t, I *n, I *r, D *a, I *lda, I *p, D *b, I *ldb, I *info) { return getrs(t, n, r, a, lda, p, b, ldb, info); }
int zgetrs_(char *t, I *n, I *r, Z *a, I *lda, I *p, Z *b, I *ldb, I *info) { return getrs(t, n, r, a, lda, p, b, ldb, info); }
int dgetri_(I *n, D *a, I *lda, I *p, D *w, I *lw, I *info) { return getri(n, a, lda, p, w, lw, info); } int zgetri_(I *n, Z *a, I *lda, I *p, Z *w, I *lw, I *info) { return getri(n, a, lda, p, w, lw, info); }
int dgesv_(I *n, I *r, D *a, I *lda, I *p, D *b, I *ldb, I *info) { return gesv(n, r, a, lda, p, b, ldb, info); } int zgesv_(I *n, I *r, Z *a, I *lda, I *p, Z *b, I *ldb, I *info) { return gesv(n, r, a, lda, p, b, ldb, info); }
int dpotrf_(char *u, I *n, D *a, I *lda, I *info) { return potrf(u, n, a, lda, info); } int zpotrf_(char *u, I *n, Z *a, I *lda, I *info) { return potrf(u, n, a, lda, info); }
int dpotrs_(char *u, I *n, I *r, D *a, I *lda, D *b, I *ldb, I *info) { return potrs(u, n, r, a, lda, b, ldb, info); } int zpotrs_(char *u, I *n, I *r, Z *a, I *lda, Z *b, I *ldb, I *info) { return potrs(u, n, r, a, lda, b, ldb, info); }
int dpotri_(char *u, I *n, D *a, I *lda, I *info) { return potri(u, n, a, lda, info); } int zpotri_(char *u, I *n, Z *a, I *lda, I *info) { return potri(u, n, a, lda, info); }
int dlarfx_(char *s, I *m, I *n, D *v, D *tau, D *c, I *ldc, D *w) { return larfx(s, m, n, v, tau, c, ldc, w); } int zlarfx_(char *s, I *m, I *n, Z *v, Z *tau, Z *c, I *ldc, Z *w) { return larfx(s, m, n, v, tau, c, ldc, w); }
int dgeqp3_(I *m, I *n, D *a, I *lda, I *jp, D *tau, D *w, I *lw, I *info) { if (g_qr_throw && *lw != -1) throw 1; return geqp3(m, n, a, lda, jp, tau, w, lw, info); }
int zgeqp3_(I *m, I *n, Z *a, I *lda, I *jp, Z *tau, Z *w, I *lw, D *, I *info) { return geqp3(m, n, a, lda, jp, tau, w, lw, info); }
int dorgqr_(I *m, I *n, I *k, D *a, I *lda, D *tau, D *w, I *lw, I *info) { return orgqr(m, n, k, a, lda, tau, w, lw, info); } int zungqr_(I *m, I *n, I *k, Z *a, I *lda, Z *tau, Z *w, I *lw, I *info) { return orgqr(m, n, k, a, lda, tau, w, lw, info); }
int dormqr_(char *s, char *t, I *m, I *n, I *k, D *a, I *lda, D *tau, D *c, I *ldc, D *w, I *lw, I *info) { return ormqr(s, t, m, n, k, a, lda, tau, c, ldc, w, lw, info, false); }
int zunmqr_(char *s, char *t, I *m, I *n, I *k, Z *a, I *lda, Z *tau, Z *c, I *ldc, Z *w, I *lw, I *info) { return ormqr(s, t, m, n, k, a, lda, tau, c, ldc, w, lw, info, true); }
int dsyev_(char *j, char *u, I *n, D *a, I *lda, D *w, D *wk, I *lw, I *info) { return syev(j, u, n, a, lda, w, wk, lw, info); }
int dsyevd_(char *j, char *u, I *n, D *a, I *lda, D *w, D *wk, I *lw, I *iw, I *liw, I *info) { if (*liw == -1) iw[0] = 1; return syev(j, u, n, a, lda, w, wk, lw, info); }
int zheev_(char *j, char *u, I *n, Z *a, I *lda, D *w, Z *wk, I *lw, D *, I *info) { return syev(j, u, n, a, lda, w, wk, lw, info); }
int dgesvd_(char *, char *, I *m, I *n, D *a, I *lda, D *s, D *u, I *ldu, D *vt, I *ldvt, D *w, I *lw, I *info) { *info = 0; if (*lw == -1) { w[0] = 8; return 0; } return gesvd(m, n, a, lda, s, u, ldu, vt, ldvt); }
int zgesvd_(char *, char *, I *m, I *n, Z *a, I *lda, D *s, Z *u, I *ldu, Z *vt, I *ldvt, Z *w, I *lw, D *, I *info) { *info = 0; if (*lw == -1) { w[0] = {8, 0}; return 0; } return gesvd(m, n, a, lda, s, u, ldu, vt, ldvt); }
int dgees_(char *jv, char *, void *, I *n, D *a, I *lda, I *sdim, D *wr, D *wi, D *vs, I *ldvs, D *w, I *lw, long *, I *info) { *sdim = 0; return gees(jv, n, a, lda, wr, wi, vs, ldvs, w, lw, info); }
int zgees_(char *jv, char *, void *, I *n, Z *a, I *lda, I *sdim, Z *wr, Z *vs, I *ldvs, Z *w, I *lw, D *, long *, I *info) { *sdim = 0; return gees(jv, n, a, lda, wr, (double *)0, vs, ldvs, w, lw, info); }
int dtgsyl_(char *t, I *ij, I *m, I *n, D *a, I *lda, D *b, I *ldb, D *c, I *ldc, D *d, I *ldd, D *e, I *lde, D *f, I *ldf, D *sc, D *dif, D *w, I *lw, I *iw, I *info) { return tgsyl(t, ij, m, n, a, lda, b, ldb, c, ldc, d, ldd, e, lde, f, ldf, sc, dif, w, lw, iw, info); }
int ztgsyl_(char *t, I *ij, I *m, I *n, Z *a, I *lda, Z *b, I *ldb, Z *c, I *ldc, Z *d, I *ldd, Z *e, I *lde, Z *f, I *ldf, D *sc, D *dif, Z *w, I *lw, I *iw, I *info) { return tgsyl(t, ij, m, n, a, lda, b, ldb, c, ldc, d, ldd, e, lde, f, ldf, sc, dif, w, lw, iw, info); }
int dlapmt_(long *f, I *m, I *n, D *x, I *ldx, I *k) { return lapmt(f, m, n, x, ldx, k); } int zlapmt_(long *f, I *m, I *n, Z *x, I *ldx, I *k) { return lapmt(f, m, n, x, ldx, k); }
// FFTW, two-dimensional complex transform, row-major n0 x n1
struct Plan { int n0, n1, sign; Z *in, *out; };
static Z tw(int num, int den, int sign)     // exp(sign 2 pi i num/den)
{
    num = ((num % den) + den) % den; int e = num * 24 / den; double c, s; double h3 = sqrt(3.) / 2, h2 = sqrt(2.) / 2;
    if (num * 24 % den) { sym_unsupported("fft length"); return {0, 0}; }
    switch (e) { case 0: c = 1; s = 0; break; case 2: c = h3; s = .5; break; case 3: c = s = h2; break; case 4: c = .5; s = h3; break; case 6: c = 0; s = 1; break; case 8: c = -.5; s = h3; break; case 9: c = -h2; s = h2; break; case 10: c = -h3; s = .5; break;
    case 12: c = -1; s = 0; break; case 14: c = -h3; s = -.5; break; case 15: c = s = -h2; break; case 16: c = -.5; s = -h3; break; case 18: c = 0; s = -1; break; case 20: c = .5; s = -h3; break; case 21: c = h2; s = -h2; break; case 22: c = h3; s = -.5; break; default: sym_unsupported("fft length"); return {0, 0}; }
    return {c, sign > 0 ? s : -s};
}
void *fftw_plan_dft_2d(int n0, int n1, double (*in)[2], double (*out)[2], int sign, unsigned) { return new Plan{n0, n1, sign, (Z *)in, (Z *)out}; }
void fftw_execute(void *q)
{
    Plan *p = (Plan *)q; std::vector<Z> o(p->n0 * p->n1);
    for (int k0 = 0; k0 < p->n0; k0++) for (int k1 = 0; k1 < p->n1; k1++) { Z s = {0, 0}; for (int a = 0; a < p->n0; a++) for (int b = 0; b < p->n1; b++) s = s + p->in[a * p->n1 + b] * (tw(a * k0, p->n0, p->sign) * tw(b * k1, p->n1, p->sign)); o[k0 * p->n1 + k1] = s; }
    for (size_t i = 0; i < o.size(); i++) p->out[i] = o[i];
}
void fftw_destroy_plan(void *q) { delete (Plan *)q; }
}
