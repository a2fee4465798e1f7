// The cost functions of Problems/: value, Euclidean gradient and action of the Euclidean Hessian against the documented
// formula and its derivatives; proximal maps; the way Problem assembles Riemannian gradients and Hessians.
#include "mkman.h"
#include "cref.h"
#include "Problems/StieBrockett.h"
#include "Problems/CStieBrockett.h"
#include "Problems/EucQuadratic.h"
#include "Problems/GrassRQ.h"
#include "Problems/ProdStieSumBrockett.h"
#include "Problems/FRankESparseApprox.h"
#include "Problems/FRankEWeightApprox.h"
#include "Problems/FRankQ2FMatCompletion.h"
#include "Problems/SFRQLyapunov.h"
#include "Problems/SphereSparsestVector.h"
#include "Problems/SPDKarcherMean.h"
#include "Problems/SphereConvexHull.h"
#include "Problems/StieSPCA.h"
#include "Problems/SphereTxRQ.h"
#include "Problems/CSFRQPhaseRetrieval.h"
#include "Problems/CFRankQ2FBlindDecon2D.h"
#include "Manifolds/MultiManifolds.h"
#include "Manifolds/SphereTx.h"
namespace {
struct PD
{
    std::shared_ptr<Problem> P; std::vector<std::shared_ptr<void>> keep;
    Element shape; Mx x; std::function<double(const Mx &)> f;   // documented cost in terms of the data of the point
    std::function<Mx(const char *)> dir;                          // admissible directions (default: arbitrary)
    bool hess = true;
    std::function<double(const Mx &)> fs;                         // smooth part, when the gradient is that of a part only
    Element pt(const Mx &v) const { Element e = shape; realdp *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < v.a.size(); i++) p[i] = v.a[i]; return e; }
    Mx d(const char *nm) const { return dir ? dir(nm) : Mx::sym(nm, x.a.size()); }
};
Mx symq(const char *nm, int n) { Mx m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m(i, j) = m(j, i) = sym_real(sym_fmt("%s%d%d", nm, i, j).c_str()); return m; }
Mx part(const Mx &v, int o, int r, int c) { Mx m(r, c); for (int i = 0; i < r * c; i++) m.a[i] = v.a[o + i]; return m; }
void law_prob(const PD &p)
{
    int n = p.x.a.size(); p.P->SetUseGrad(true); p.P->SetUseHess(true); sym_true((int)p.shape.Getlength() == n, "length"); auto fs = p.fs ? p.fs : p.f;
    Element X = p.pt(p.x), keep = X; double f0 = p.f(p.x); sym_eq(p.P->f(X), f0, "cost"); eqM(iv(X), p.x, "point_unchanged_by_cost");
    Mx e = p.d("e"); Element E = p.pt(e), G = p.pt(Mx::sym("old", n)); p.P->EucGrad(X, &G); Mx g = iv(G);
    std::vector<double> df = sym_ddt([&](double t) { return std::vector<double>(1, fs(p.x + t * e)); }); sym_eq(dot(g, e), df[0], "gradient");
    eqM(iv(X), p.x, "point_unchanged_by_gradient"); eqM(iv(keep), p.x, "copy_of_point_unchanged");
    // evaluating elsewhere in between does not matter, neither does a copy of the point
    Mx y = p.x; for (int i = 0; i < n; i++) y.a[i] = y.a[i] + (i % 3 == 0 ? .5 : .25) * e.a[i]; 
    if (!p.dir && !p.fs) { Element Y = p.pt(y); p.P->f(Y); Element GY = Y; p.P->EucGrad(Y, &GY); }
    Element G2 = p.shape; p.P->EucGrad(X, &G2); eqM(iv(G2), g, "gradient_again"); eqM(iv(G), g, "gradient_kept");
    Element X2 = X, G3 = X; p.P->EucGrad(X2, &G3); eqM(iv(G3), g, "gradient_at_copy"); eqM(iv(X), p.x, "point_unchanged_by_gradient");
    if (!p.hess) return;
    X.AddToFields("EGrad", G);   // as Problem::RieGrad leaves it
    Element H = p.pt(Mx::sym("old", n)); p.P->EucHessianEta(X, E, &H); Mx h = iv(H);
    std::vector<double> dg = sym_ddt([&](double t) { Element Z = p.pt(p.x + t * e); p.P->f(Z); Element GZ = p.shape; p.P->EucGrad(Z, &GZ); return vals(GZ); });
    for (int i = 0; i < n; i++) sym_eq(h.a[i], dg[i], "hessian[%d]", i);
    eqM(iv(E), e, "direction_unchanged"); eqM(iv(X), p.x, "point_unchanged_by_hessian"); eqM(iv(G), g, "gradient_kept_by_hessian");
    Element H2 = E; p.P->EucHessianEta(X, E, &H2); eqM(iv(H2), h, "hessian_into_copy_of_direction"); eqM(iv(E), e, "direction_unchanged");
}
void reg(const std::string &nm, std::function<PD()> mk, int tier = 0) { sym_register_case("prob_" + nm, [=] { PD p = mk(); law_prob(p); sym_reach("end"); }, tier); }
Element vecE(const Mx &m) { return toV(m); }
PD brockett(int n, int q)
{
    PD p; Mx B = symq("B", n), D = Mx::sym("D", q); p.P = std::make_shared<StieBrockett>(toE(B), vecE(D)); p.shape = Stiefel(n, q).GetEMPTYEXTR(); p.x = Mx::sym("x", n * q);
    p.f = [=](const Mx &v) { Mx X = rect(v, n, q); double s = 0; Mx M = X.t() * B * X; for (int i = 0; i < q; i++) s += D(i) * M(i, i); return s; };
    return p;
}
Mx czv(const CM &m) { Mx v(2 * m.n()); for (int i = 0; i < m.n(); i++) { v(2 * i) = m.re[i]; v(2 * i + 1) = m.im[i]; } return v; }
CM zc(const Mx &v, int o, int r, int c) { CM m(r, c, true); for (int i = 0; i < r * c; i++) { m.re[i] = v.a[o + 2 * i]; m.im[i] = v.a[o + 2 * i + 1]; } return m; }
PD cbrockett(int n, int q)
{
    PD p; CM B(n, n, true); for (int i = 0; i < n; i++) { B.re[i + i * n] = sym_real(sym_fmt("B%d", i).c_str()); for (int j = 0; j < i; j++) { double a = sym_real(sym_fmt("B%d%d", i, j).c_str()), b = sym_real(sym_fmt("B%d%di", i, j).c_str()); B.re[i + j * n] = B.re[j + i * n] = a; B.im[i + j * n] = b; B.im[j + i * n] = -b; } }
    CM D(q, 1, true); for (int i = 0; i < q; i++) D.re[i] = sym_real(sym_fmt("D%d", i).c_str());
    p.P = std::make_shared<CStieBrockett>(el(B), el(D)); p.shape = Element(n, q, 1, true); p.x = Mx::sym("x", 2 * n * q);
    p.f = [=](const Mx &v) { CM X = zc(v, 0, n, q), M = X.h() * B * X; double s = 0; for (int i = 0; i < q; i++) s += D.re[i] * M.re[i + i * q]; return s; };
    return p;
}
PD eucq(int n, int q) { PD p; Mx A = symq("A", n); p.P = std::make_shared<EucQuadratic>(toE(A)); p.shape = Element(n, q); p.x = Mx::sym("x", n * q); p.f = [=](const Mx &v) { Mx X = rect(v, n, q); return .5 * dot(X, A * X); }; return p; }
PD rq(int n, int q) { PD p; Mx A = symq("B", n); p.P = std::make_shared<GrassRQ>(toE(A), n, q); p.shape = Element(n, q); p.x = Mx::sym("x", n * q); p.f = [=](const Mx &v) { Mx X = rect(v, n, q); return .5 * dot(X, A * X); }; return p; }
PD sumbrockett(int n, int q, int m, int k)
{
    PD p; Mx B1 = symq("B1", n), B2 = symq("B2", n), B3 = symq("B3", m), D1 = Mx::sym("D1", q), D2 = Mx::sym("D2", q), D3 = Mx::sym("D3", k); auto S1 = std::make_shared<Stiefel>(n, q), S2 = std::make_shared<Stiefel>(m, k); auto M = std::make_shared<ProductManifold>(2, S1.get(), 2, S2.get(), 1);
    p.keep = {S1, S2, M}; p.P = std::make_shared<ProdStieSumBrockett>(toE(B1), vecE(D1), toE(B2), vecE(D2), toE(B3), vecE(D3)); M->SetIsIntrApproach(false); p.P->SetDomain(M.get()); p.shape = M->GetEMPTYEXTR(); p.x = Mx::sym("x", 2 * n * q + m * k);
    auto b = [](const Mx &X, const Mx &B, const Mx &D) { Mx M = X.t() * B * X; double s = 0; for (int i = 0; i < (int)D.a.size(); i++) s += D(i) * M(i, i); return s; };
    p.f = [=](const Mx &v) { return b(part(v, 0, n, q), B1, D1) + b(part(v, n * q, n, q), B2, D2) + b(part(v, 2 * n * q, m, k), B3, D3); };
    return p;
}
PD wapprox(int m, int n) { PD p; Mx A = Mx::sym("A", m, n), W = symq("W", m * n); p.P = std::make_shared<FRankEWeightApprox>(toE(A), toE(W), m, n, 1); p.shape = Element(m, n); p.x = Mx::sym("x", m * n); p.f = [=](const Mx &v) { Mx d = flat(v - flat(A)); return dot(d, W * d); }; return p; }
double aabs(double v) { return v < 0 ? -v : v; }
PD sapprox(int m, int n, double tier) { PD p; Mx A = Mx::sym("A", m, n); double l = sym_real("lambda"); sym_assume_le(0, l); p.P = std::make_shared<FRankESparseApprox>(toE(A), l, m, n, 1, 1); p.shape = Element(m, n); p.x = Mx::sym("x", m * n); p.fs = [=](const Mx &v) { Mx d = flat(v - flat(A)); return dot(d, d); }; auto fs = p.fs; p.f = [=](const Mx &v) { double s = fs(v); for (double a : v.a) s += l * aabs(a); return s; }; return p; }
PD spca(int m, int n, int q)
{
    PD p; Mx B = Mx::sym("B", m, n); if (m > 1) { for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (i != j) B(i, j) = 0; }
    double l = sym_real("lambda"); sym_assume_le(0, l); if (m == 1 && n == 1) sym_assume_ne(B(0), 0); p.P = std::make_shared<StieSPCA>(toE(B), l, n, m, q, 1); p.shape = Element(n, q); p.x = Mx::sym("x", n * q);
    p.fs = [=](const Mx &v) { Mx Y = B * rect(v, n, q); return -dot(Y, Y); }; auto fs = p.fs; p.f = [=](const Mx &v) { double s = fs(v); for (double a : v.a) s += l * aabs(a); return s; };
    return p;
}
struct Trip { std::vector<integer> i, j; std::vector<double> v; };
PD matcomp(int m, int n, int r, int pat)
{
    static const int R[][4] = {{0, 1, 0, 1}, {1, 0, 1, 0}, {1, 0, 0, 1}}, C[][4] = {{0, 1, 1, 0}, {1, 0, 0, 1}, {1, 1, 0, 0}}; static const int NZ[] = {2, 3, 4};
    auto T = std::make_shared<Trip>(); for (int k = 0; k < NZ[pat]; k++) { T->i.push_back(R[pat][k] + (pat == 1 && m > 2 && k == 0)); T->j.push_back(C[pat][k] + (pat == 2 && n > 2 && k == 1)); T->v.push_back(sym_real(sym_fmt("a%d", k).c_str())); }
    PD p; p.keep = {T}; p.P = std::make_shared<FRankQ2FMatCompletion>(T->i.data(), T->j.data(), T->v.data(), NZ[pat], m, n, r); Element g(m, r), h(n, r); p.shape = Element(2, &g, 1, &h, 1); p.x = Mx::sym("x", (m + n) * r);
    p.f = [=](const Mx &v) { Mx Y = part(v, 0, m, r) * part(v, m * r, n, r).t(); double s = 0; for (size_t k = 0; k < T->v.size(); k++) { double d = Y(T->i[k], T->j[k]) - T->v[k]; s += d * d; } return .5 * s; };
    return p;
}
struct Spm { std::vector<integer> i, j; std::vector<double> v; std::unique_ptr<SparseMatrix> S; Spm(const Mx &A) { for (int a = 0; a < A.r; a++) for (int b = 0; b < A.c; b++) { i.push_back(a); j.push_back(b); v.push_back(A(a, b)); } S.reset(new SparseMatrix(A.r, A.c, i.data(), j.data(), v.data(), (integer)v.size())); } };
PD lyap(int n, int q, int c)
{
    PD p; Mx A = symq("A", n), M = symq("M", n), C = Mx::sym("C", n, c); auto a = std::make_shared<Spm>(A), b = std::make_shared<Spm>(M); p.keep = {a, b}; p.P = std::make_shared<SFRQLyapunov>(*a->S, *b->S, toE(C), q); p.shape = Element(n, q); p.x = Mx::sym("x", n * q);
    p.f = [=](const Mx &v) { Mx Y = rect(v, n, q), X = Y * Y.t(); return tr(X * A * X * M) - tr(X * C * C.t()); };
    return p;
}
PD hull(int n, int k)
{
    PD p; auto W = std::make_shared<std::vector<Element>>(); Mx w = Mx::sym("w", n, k); for (int i = 0; i < k; i++) W->push_back(toV(w.col(i))); p.keep = {W}; p.P = std::make_shared<SphereConvexHull>((const Manifold *)nullptr, W->data(), k, nullptr, nullptr); p.shape = Element(k); p.x = Mx::sym("x", k);
    p.f = [=](const Mx &v) { Mx s(k); for (int i = 0; i < k; i++) s(i) = v.a[i] * v.a[i]; Mx u = w * s; return dot(u, u); };
    return p;
}
// nonsmooth: the gradient is that of the linear piece the point lies on
void sparsest(int m, int n)
{
    Mx Q = Mx::sym("Q", m, n), x = Mx::sym("x", n), e = Mx::sym("e", n), u = Q * x; SphereSparsestVector P(toE(Q)); Element X = toV(x), G = toV(Mx::sym("old", n)); double s = 0; Mx g(n), gl(n);
    for (int i = 0; i < m; i++) s += aabs(u(i)); sym_eq(P.f(X), s, "cost"); P.EucGrad(X, &G); g = iv(G);
    // subgradient: f(y) >= f(x) + <g, y - x>, with equality of g x and f x
    sym_eq(dot(g, x), s, "subgradient"); Mx y = Mx::sym("y", n), w = Q * y; double fy = 0, bound = 0;
    for (int i = 0; i < m; i++) { double c = 0; for (int j = 0; j < n; j++) c += Q(i, j) * y(j); fy += aabs(c); } bound = dot(g, y); sym_le(bound, fy, "subgradient_inequality");
    eqM(iv(X), x, "point_unchanged"); sym_reach("end");
}
// ---- Karcher mean of SPD matrices (2x2): points with rational spectrum, arbitrary symmetric directions
double logsq(const Mx &S) { double t = S(0, 0) + S(1, 1), d = S(0, 0) * S(1, 1) - S(0, 1) * S(1, 0), q = std::sqrt(t * t - 4 * d), a = std::log((t + q) / 2), b = std::log((t - q) / 2); return a * a + b * b; }
PD karcher(int num, int k)
{
    PD p; std::vector<Mx> L; Mx X(2, 2), s(2, 2); s(0, 0) = 4; s(1, 1) = 1;
    if (num == 1) { Mx l = spdL(2, k), R = givens(2, 0, 1, k == 0 ? .5 : -2); X = l * R * s * R.t() * l.t(); L = {l}; }
    else { X = Mx::lit(2, 2, {5, 2, 2, 8}); L = {Mx::eye(2), k == 0 ? Mx::lit(2, 2, {2, 0, 0, 2}) : k == 1 ? Mx::lit(2, 2, {2, 0, 0, 1}) : Mx::lit(2, 2, {1, 0, 1, 1})}; }
    Element sh(2, 2), Ls(1, &sh, num); Ls.NewMemoryOnWrite(); for (int i = 0; i < num; i++) Ls.GetElement(i) = toE(L[i]);
    p.P = std::make_shared<SPDKarcherMean>(Ls, 2, num); p.shape = Element(2, 2); p.x = flat(X); p.dir = [](const char *nm) { Mx e(2, 2); e(0, 0) = sym_real(sym_fmt("%s0", nm).c_str()); e(1, 1) = sym_real(sym_fmt("%s2", nm).c_str()); e(0, 1) = e(1, 0) = sym_real(sym_fmt("%s1", nm).c_str()); return flat(e); };
    p.f = [=](const Mx &v) { Mx Y = rect(v, 2, 2); double t = 0; for (auto &l : L) { Mx li = inv(l); t += logsq(li * Y * li.t()); } return t / (2 * num); };
    return p;
}
// equal eigenvalues: X = c I, one matrix I
void karcher_equal()
{
    double c = 4; Element sh(2, 2), Ls(1, &sh, 1); Ls.NewMemoryOnWrite(); Mx l = Mx::lit(2, 2, {1, 0, 2, 3}); Ls.GetElement(0) = toE(l); SPDKarcherMean P(Ls, 2, 1); Mx x = c * (l * l.t()); Element X = toE(x); double lc = std::log(c);
    sym_eq(P.f(X), lc * lc, "cost"); Mx xi = inv(x); Element G(2, 2); P.EucGrad(X, &G); eqE(G, lc * xi, "gradient"); X.AddToFields("EGrad", G);
    Mx e = Mx::sym("e", 2, 2); e(0, 1) = e(1, 0); Element H(2, 2); P.EucHessianEta(X, toE(e), &H); eqE(H, (1 - lc) * (xi * e * xi), "hessian"); sym_reach("end");
}
#ifdef ROPTLIB_WITH_FFTW
CM dft(int n1, int n2, int sgn)   // matrix of the two-dimensional transform of vectors in column-major order; sizes 1, 2, 4
{
    int n = n1 * n2; CM F(n, n, true); auto w = [&](int k, int N, double &c, double &s) { int q = ((k % N + N) % N) * 4 / N; static const int C[] = {1, 0, -1, 0}, S[] = {0, 1, 0, -1}; c = C[q]; s = sgn * S[q]; };
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { double c1, s1, c2, s2; w((a % n1) * (b % n1), n1, c1, s1); w((a / n1) * (b / n1), n2, c2, s2); F.re[a + b * n] = c1 * c2 - s1 * s2; F.im[a + b * n] = c1 * s2 + s1 * c2; }
    return F;
}
CM rat(int r, int c, int k) { static const double h[] = {1, -.5, .25, 2, -1.5, .75, 3, -2}; CM m(r, c, true); for (int i = 0; i < r * c; i++) { m.re[i] = h[(i + k) % 8]; m.im[i] = h[(3 * i + k + 2) % 8]; } return m; }
PD phase(int n1, int n2, int l, int r, bool kap)
{
    PD p; int n = n1 * n2, m = n * l; CM M = rat(n, l, 1); Mx b(m); for (int i = 0; i < m; i++) b(i) = 1 + .5 * (i % 3); double k = 0; if (kap) k = sym_real("kappa");
    p.P = std::make_shared<CSFRQPhaseRetrieval>(toV(b), el(M), k, n1, n2, l, r); p.shape = Element(n, r, 1, true); p.x = n * r > 2 ? flat(czv(rat(n, r, 3)) + sym_real("s") * czv(rat(n, r, 6))) : Mx::sym("x", 2 * n * r);
    CM F = dft(n1, n2, -1); double sq = n; double bb = dot(b, b);
    p.f = [=](const Mx &v) { CM X = zc(v, 0, n, r); double t = 0; for (int i = 0; i < l; i++) { CM Y = X; for (int j = 0; j < r; j++) for (int a = 0; a < n; a++) { double c = M.re[a + i * n], d = M.im[a + i * n], x = X.re[a + j * n], y = X.im[a + j * n]; Y.re[a + j * n] = c * x - d * y; Y.im[a + j * n] = c * y + d * x; } CM Z = F * Y; for (int a = 0; a < n; a++) { double q = 0; for (int j = 0; j < r; j++) q += Z.re[a + j * n] * Z.re[a + j * n] + Z.im[a + j * n] * Z.im[a + j * n]; double u = q / sq - b(i * n + a); t += u * u; } } return t / bb + k * dot(v, v); };
    return p;
}
CM haarm(int n) { CM H(n, n, true); double q[] = {2}; volatile double *z = q; double r = 1 / sqrt(*z); if (n == 1) H.re[0] = 1; if (n == 2) { H.re[0] = H.re[1] = H.re[2] = r; H.re[3] = -r; } if (n == 4) { for (int j = 0; j < 4; j++) { H.re[0 + 4 * j] = .5; H.re[1 + 4 * j] = j < 2 ? .5 : -.5; } H.re[2] = r; H.re[6] = -r; H.re[11] = r; H.re[15] = -r; } return H; }
struct Csp { std::vector<integer> i, j; std::vector<realdpcomplex> v; std::unique_ptr<SparseMatrix> S; Csp(const CM &A, bool diag) { for (int a = 0; a < A.r; a++) for (int b = 0; b < A.c; b++) if (!diag || a == b) { i.push_back(a); j.push_back(b); realdpcomplex z = {A.re[a + b * A.r], A.im[a + b * A.r]}; v.push_back(z); } S.reset(new SparseMatrix(A.r, A.c, i.data(), j.data(), v.data(), (integer)v.size())); } };
PD deconv(int n1, int n2, bool full, bool pen)
{
    PD p; int L = n1 * n2; CM B = rat(L, L, 2), C = rat(L, L, 5), y = CM::sym("y", L, 1, true); if (!full) for (int a = 0; a < L; a++) for (int b = 0; b < L; b++) if (a != b) B.re[a + b * L] = B.im[a + b * L] = C.re[a + b * L] = C.im[a + b * L] = 0;
    auto sb = std::make_shared<Csp>(B, !full), sc = std::make_shared<Csp>(C, !full); double rho = 0, d = 1, mu = 1; if (pen) { rho = sym_pos("rho"); d = 2; mu = .5; }
    Element g(L, 1, 1, true); p.shape = Element(2, &g, 1, &g, 1); p.keep = {sb, sc}; p.P = std::make_shared<CFRankQ2FBlindDecon2D>(el(y), *sb->S, *sc->S, n1, n2, 1, rho, d, mu); p.hess = !pen;
    p.x = L > 2 || pen ? flat(czv(rat(2 * L, 1, 3)) + sym_real("s") * czv(rat(2 * L, 1, 7))) : Mx::sym("x", 4 * L);
    CM F = dft(n1, n2, -1) * B, Gm = dft(n1, n2, 1) * haarm(L).t() * C;   // backward transform of the inverse wavelet transform
    p.f = [=](const Mx &v) { CM U = zc(v, 0, L, 1), V = zc(v, 2 * L, L, 1), a = F * U, b = (Gm * V).conj(); double t = 0; double nv = 0; for (int i = 0; i < L; i++) nv += V.re[i] * V.re[i] + V.im[i] * V.im[i];
        for (int i = 0; i < L; i++) { double c = y.re[i] - (a.re[i] * b.re[i] - a.im[i] * b.im[i]), e = y.im[i] - (a.re[i] * b.im[i] + a.im[i] * b.re[i]); t += c * c + e * e; if (pen) { double q = L * (a.re[i] * a.re[i] + a.im[i] * a.im[i]) * nv / (8 * d * d * mu * mu) - 1; if (q > 0) t += rho * q * q; } }
        return t; };
    return p;
}
#endif
// ---- proximal maps: y = ProxW(x) minimises 1/2 sum w (y - x)^2 + lambda |y|_1, CalJW is its derivative where that exists
struct Prox { std::shared_ptr<Problem> P; double l; };
void law_prox(const Prox &q, int r, int c, int nb)
{
    int n = r * c, bs = n / nb; Mx x = Mx::sym("x", r, c), w(nb), e = Mx::sym("e", r, c); for (int i = 0; i < nb; i++) w(i) = sym_pos(sym_fmt("w%d", i).c_str()); Element X = toE(x), W = toV(w), Y = toE(Mx::sym("old", r, c));
    q.P->ProxW(X, W, &Y); Mx y = iv(Y);
    for (int i = 0; i < n; i++) { double g = w(i / bs) * (x.a[i] - y.a[i]); if (y.a[i] > 0) sym_eq(g, q.l, "optimal"); else if (y.a[i] < 0) sym_eq(g, -q.l, "optimal"); else { sym_le(g, q.l, "optimal"); sym_le(-q.l, g, "optimal"); } }
    eqM(iv(X), flat(x), "point_unchanged"); eqM(iv(W), w, "weight_unchanged");
    Element E = toE(e), J = toE(Mx::sym("old", r, c)); q.P->CalJW(X, E, W, &J); Mx j = iv(J);
    for (int i = 0; i < n; i++) { double a = aabs(x.a[i]) * w(i / bs); if (a > q.l) sym_eq(j.a[i], e.a[i], "derivative"); else if (a < q.l) sym_eq(j.a[i], 0, "derivative"); }
    Element J2 = E; q.P->CalJW(X, J2, W, &J2); eqM(iv(J2), j, "derivative_in_place"); eqM(iv(E), flat(e), "direction_unchanged"); sym_reach("end");
}
Prox proxE(int m, int n) { Prox q; q.l = sym_real("lambda"); sym_assume_le(0, q.l); q.P = std::make_shared<FRankESparseApprox>(toE(Mx(m, n)), q.l, m, n, 1, 1); return q; }
Prox proxS(int n, int p) { Prox q; q.l = sym_real("lambda"); sym_assume_le(0, q.l); Mx B(1, n); B(0, 0) = 1; q.P = std::make_shared<StieSPCA>(toE(B), q.l, n, 1, p, 1); return q; }
// ---- weights of the proximal subproblem: one per block, positive, from the curvature of the smooth term
void weights_spca(int m, int n, int p, int len)
{
    Mx B = m == 1 ? Mx::sym("B", 1, n) : Mx::lit(2, 2, {2, 0, 0, -1}), x = Mx::sym("x", n, p); double l = sym_real("lambda"); if (m == 1) sym_assume_ne(B(0), 0); auto P = std::make_shared<StieSPCA>(toE(B), l, n, m, p, len); Element X = toE(x), W, E = toE(Mx::sym("e", n, p));
    P->f(X); P->PreConditioner(X, E, &W); Mx w = iv(W), Y = B * x; sym_true((int)w.a.size() == len, "count");
    for (int k = 0; k < len; k++)
    {
        sym_lt(0, w.a[k], "positive"); double c = 0, b = 0; int j = len == p && len != n * p ? k : k / n, i = k % n;
        if (len == 1 && len != p && len != n * p)
        {   // largest curvature of the smooth term
            Mx v = Mx::sym("v", n), Bv = B * v; sym_le(2 * dot(Bv, Bv), w.a[0] * dot(v, v), "bounds_curvature"); break;
        }
        for (int a = 0; a < m; a++) c += Y(a, j) * Y(a, j); if (len == n * p) for (int a = 0; a < m; a++) b += B(a, i) * B(a, i); else b = 1;
        double t = 2 * (c - b); if (t > (realdp)0.1) sym_eq(w.a[k], t, "curvature"); else sym_eq(w.a[k], (realdp)0.1, "floor");
    }
    eqM(iv(X), flat(x), "point_unchanged"); sym_reach("end");
}
void weights_sparse(int m, int n)
{
    auto P = std::make_shared<FRankESparseApprox>(toE(Mx::sym("A", m, n)), sym_real("lambda"), m, n, 1, 1); Element X = toE(Mx::sym("x", m, n)), E = toE(Mx::sym("e", m, n)), W, H = E; P->f(X); P->PreConditioner(X, E, &W); sym_true(W.Getlength() == 1, "count"); sym_lt(0, iv(W)(0), "positive");
    P->EucHessianEta(X, E, &H); sym_eq(dot(iv(H), iv(E)), iv(W)(0) * dot(iv(E), iv(E)), "curvature"); sym_reach("end");
}
struct Init
{
    Init()
    {
        reg("brockett32", [] { return brockett(3, 2); }); reg("brockett22", [] { return brockett(2, 2); }); reg("brockett31", [] { return brockett(3, 1); });
        reg("cbrockett21", [] { return cbrockett(2, 1); }); reg("cbrockett22", [] { return cbrockett(2, 2); }); reg("cbrockett32", [] { return cbrockett(3, 2); }, 1);
        reg("eucquadratic2", [] { return eucq(2, 1); }); reg("eucquadratic3", [] { return eucq(3, 1); }); reg("eucquadratic32", [] { return eucq(3, 2); });
        reg("rayleigh31", [] { return rq(3, 1); }); reg("rayleigh32", [] { return rq(3, 2); });
        reg("sumbrockett", [] { return sumbrockett(2, 1, 2, 2); }); reg("sumbrockett3", [] { return sumbrockett(2, 2, 3, 1); });
        reg("weightapprox22", [] { return wapprox(2, 2); }); reg("weightapprox32", [] { return wapprox(3, 2); }); reg("weightapprox23", [] { return wapprox(2, 3); });
        reg("sparseapprox21", [] { return sapprox(2, 1, 0); }); reg("sparseapprox31", [] { return sapprox(3, 1, 0); }); reg("sparseapprox22", [] { return sapprox(2, 2, 0); }, 1);
        reg("spca121", [] { return spca(1, 2, 1); }); reg("spca221", [] { return spca(2, 2, 1); }); reg("spca122", [] { return spca(1, 2, 2); }, 1); reg("spca231", [] { return spca(2, 3, 1); }, 1);
        for (int k = 0; k < 3; k++) { reg(sym_fmt("completion221_%d", k), [k] { return matcomp(2, 2, 1, k); }); reg(sym_fmt("completion322_%d", k), [k] { return matcomp(3, 2, 2, k); }); reg(sym_fmt("completion231_%d", k), [k] { return matcomp(2, 3, 1, k); }); }
        reg("lyapunov211", [] { return lyap(2, 1, 1); }); reg("lyapunov212", [] { return lyap(2, 1, 2); }); reg("lyapunov221", [] { return lyap(2, 2, 1); }); reg("lyapunov311", [] { return lyap(3, 1, 1); }); reg("lyapunov321", [] { return lyap(3, 2, 1); }, 1);
        reg("hull22", [] { return hull(2, 2); }); reg("hull23", [] { return hull(2, 3); }); reg("hull32", [] { return hull(3, 2); });
        sym_register_case("prob_sparsest22", [] { sparsest(2, 2); }); sym_register_case("prob_sparsest32", [] { sparsest(3, 2); }, 1); sym_register_case("prob_sparsest21", [] { sparsest(2, 1); });
        for (int k = 0; k < 3; k++) { reg(sym_fmt("karcher1_%d", k), [k] { return karcher(1, k); }); reg(sym_fmt("karcher2_%d", k), [k] { return karcher(2, k); }); } sym_register_case("prob_karcher_equal", karcher_equal);
#ifdef ROPTLIB_WITH_FFTW
        reg("phase_2111", [] { return phase(2, 1, 1, 1, true); }); reg("phase_1121", [] { return phase(1, 1, 2, 1, false); }); reg("phase_1121k", [] { return phase(1, 1, 2, 1, true); }); reg("phase_1212", [] { return phase(1, 2, 1, 2, true); }); reg("phase_2221", [] { return phase(2, 2, 2, 1, true); }); reg("phase_2222", [] { return phase(2, 2, 2, 2, false); }); reg("phase_2112", [] { return phase(2, 1, 2, 2, true); });
        reg("deconv_21", [] { return deconv(2, 1, true, false); }); reg("deconv_12", [] { return deconv(1, 2, false, false); }); reg("deconv_22", [] { return deconv(2, 2, true, false); }); reg("deconv_41", [] { return deconv(4, 1, true, false); }); reg("deconv_21p", [] { return deconv(2, 1, true, true); }); reg("deconv_22p", [] { return deconv(2, 2, false, true); });
#endif
        sym_register_case("prox_sparseapprox21_1", [] { Prox q = proxE(2, 1); law_prox(q, 2, 1, 1); }); sym_register_case("prox_sparseapprox21_2", [] { Prox q = proxE(2, 1); law_prox(q, 2, 1, 2); }); sym_register_case("prox_sparseapprox22_2", [] { Prox q = proxE(2, 2); law_prox(q, 2, 2, 2); });
        for (int k = 0; k < 2; k++) sym_register_case(sym_fmt("prox_weights_spca%d1_1", k + 1), [k] { weights_spca(k + 1, 2, 2, 1); });
        sym_register_case("prox_weights_spca_2", [] { weights_spca(2, 2, 2, 2); }); sym_register_case("prox_weights_spca_1c", [] { weights_spca(1, 2, 1, 1); }); sym_register_case("prox_weights_spca_4", [] { weights_spca(2, 2, 2, 4); }); sym_register_case("prox_weights_spca_2v", [] { weights_spca(1, 2, 1, 2); }); sym_register_case("prox_weights_sparse21", [] { weights_sparse(2, 1); }); sym_register_case("prox_weights_sparse22", [] { weights_sparse(2, 2); });
        sym_register_case("prox_spca21_1", [] { Prox q = proxS(2, 1); law_prox(q, 2, 1, 1); }); sym_register_case("prox_spca12_2", [] { Prox q = proxS(2, 1); law_prox(q, 2, 1, 2); }); sym_register_case("prox_spca22_2", [] { Prox q = proxS(2, 2); law_prox(q, 2, 2, 2); }, 1); sym_register_case("prox_spca22_4", [] { Prox q = proxS(2, 2); law_prox(q, 2, 2, 4); }, 1);
    }
} init;
}
