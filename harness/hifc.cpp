// The way Problem assembles Riemannian gradients and Hessians, the finite-difference derivatives, the Rayleigh quotient of a
// Hessian, and the semismooth Newton method for the proximal map on a tangent space.
#include "mkman.h"
#include "Problems/SphereTxRQ.h"
#include "Manifolds/SphereTx.h"
namespace {
void settle(const MD &m) {}
struct Fix : public Problem     // fixed Euclidean gradient and Hessian action
{
    const MD &m; Mx g, w, eta; mutable int nf = 0, ng = 0, nh = 0; Mx x;
    Fix(const MD &m) : m(m), x(m.x) { Mx e0 = m.comb(Mx::sym("c", m.d())); auto p = m.gw(e0); g = p.first; w = p.second; eta = e0; SetUseGrad(true); SetUseHess(true); SetNumGradHess(false); SetDomain(m.M.get()); }
    virtual realdp f(const Variable &X) const { nf++; eqM(m.ptv(X), x, "cost_at_the_point"); return 0; }
    virtual Vector &EucGrad(const Variable &X, Vector *r) const { ng++; eqM(m.ptv(X), x, "gradient_at_the_point"); *r = m.vec(g); return *r; }
    virtual Vector &EucHessianEta(const Variable &X, const Vector &e, Vector *r) const { nh++; eqM(m.ptv(X), x, "hessian_at_the_point"); eqM(m.vecv(e), eta, "direction_in_ambient_space"); *r = m.vec(w); return *r; }
};
void law_iface(const MD &m)
{
    Fix P(m); Element X = m.X(), G = m.M->GetEMPTY(); P.f(X); P.Grad(X, &G); sym_true(P.ng == 1, "one_gradient"); Mx r = unrep(m, X, G); m.tang(m.x, r, "tangent");
    for (int i = 0; i < m.d(); i++) { Element b = rep(m, X, m.B[i]); sym_eq(m.M->Metric(X, G, b), m.eip(P.g, m.B[i]), "riesz[%d]", i); sym_eq(m.ip(m.x, r, m.B[i]), m.eip(P.g, m.B[i]), "riesz_ambient[%d]", i); }
    Element E = rep(m, X, P.eta), H = m.M->GetEMPTY(); P.HessianEta(X, E, &H); sym_true(P.nh == 1, "one_hessian"); Mx h = unrep(m, X, H); m.tang(m.x, h, "tangent");
    bool b = m.intr(); m.M->SetIsIntrApproach(false); Element X2 = m.X(), R = m.E(), W = m.E(); m.M->EucGradToGrad(X2, m.vec(P.g), &P, &R); m.M->EucHvToHv(X2, m.vec(P.eta), m.vec(P.w), &P, &W); m.M->SetIsIntrApproach(b);
    eqM(h, m.vecv(W), "hessian"); eqM(unrep(m, X, E), P.eta, "direction_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged"); eqM(r, m.vecv(R), "gradient");
    if (m.intr()) { sym_true((int)G.Getlength() == m.d() && (int)H.Getlength() == m.d(), "intrinsic_length"); }
    // asked again, also with results that held other vectors
    Element G2 = H; P.Grad(X, &G2); eqM(unrep(m, X, G2), r, "gradient_again"); Element H2 = G; P.HessianEta(X, E, &H2); eqM(unrep(m, X, H2), h, "hessian_again"); eqM(unrep(m, X, H), h, "hessian_kept"); eqM(unrep(m, X, G), r, "gradient_kept");
}
// f(x) = g.x (+ 1/2 x.A x); derivatives by finite differences are exact up to the step
struct Quad : public Problem
{
    const MD &m; Mx g, A; bool hasg; int n;
    Quad(const MD &m, bool quad, bool hasg) : m(m), hasg(hasg) { n = m.x.a.size(); g = Mx::sym("g", n); A = Mx(n, n); if (m.symg) { g = m.gw(0. * m.B[0]).first; if (quad) { double a = sym_real("A"); for (int i = 0; i < n; i++) A(i, i) = a; } } else if (quad) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = sym_real(sym_fmt("A%d%d", i, j).c_str()); SetUseGrad(true); SetUseHess(true); SetNumGradHess(false); SetDomain(m.M.get()); }
    virtual realdp f(const Variable &X) const { Mx x = m.ptv(X); return dot(g, x) + .5 * dot(x, A * x); }
    virtual Vector &EucGrad(const Variable &X, Vector *r) const { if (!hasg) return Problem::EucGrad(X, r); Mx x = m.ptv(X); *r = m.vec(g + A * x); return *r; }
};
void law_numgrad(const MD &m)     // linear cost
{
    for (int k = 0; k < 2; k++)
    {
        Quad P(m, false, k == 1); P.SetNumGradHess(k == 1); Element X = m.X(), X0 = X, G = m.M->GetEMPTY(); X.AddToFields("junk", m.vec(m.x)); P.f(X); P.Grad(X, &G); Mx r = unrep(m, X, G);
        Mx g = P.g;
        for (int i = 0; i < m.d(); i++) sym_eq(m.ip(m.x, r, m.B[i]), m.eip(g, m.B[i]), k ? "riesz_asked_for" : "riesz"); eqM(m.ptv(X), m.x, "point_unchanged"); eqM(m.ptv(X0), m.x, "copy_of_point_unchanged");
        Element E = m.E(); P.Problem::EucGrad(X, &E); eqM(m.vecv(E), P.g, "euclidean_gradient");
    }
}
void law_numhess(const MD &m)     // quadratic cost, exact gradient
{
    Quad P(m, true, true); Element X = m.X(), G = m.M->GetEMPTY(); P.f(X); P.Grad(X, &G); Mx e = dirk(m, "c", 0); { double s = m.ip(m.x, e, e); sym_assume_lt(0, s); }
    Element E = m.vec(e), H = m.E(); P.EucHessianEta(X, E, &H); eqM(m.vecv(H), P.A * e, "euclidean_hessian"); eqM(m.vecv(E), e, "direction_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged");
    Mx ge = P.g + P.A * m.x; Element R = rep(m, X, e), HR = m.M->GetEMPTY(); P.HessianEta(X, R, &HR); Mx h = unrep(m, X, HR);
    bool b = m.intr(); m.M->SetIsIntrApproach(false); Element X2 = m.X(), Gr = m.E(), W = m.E(); m.M->EucGradToGrad(X2, m.vec(ge), &P, &Gr); m.M->EucHvToHv(X2, m.vec(e), m.vec(P.A * e), &P, &W); m.M->SetIsIntrApproach(b); eqM(h, m.vecv(W), "hessian");
}
// ---- Rayleigh quotient of a (symmetric) Hessian on the unit sphere of a tangent space
struct SymHess : public Problem
{
    Mx A, root; mutable bool gr = false;
    SymHess(const Mx &A, const Mx &root) : A(A), root(root) { SetNumGradHess(false); }
    virtual realdp f(const Variable &x) const { eqM(iv(x), root, "at_the_root"); return 0; }
    virtual Vector &Grad(const Variable &x, Vector *r) const { gr = true; eqM(iv(x), root, "at_the_root"); return *r; }
    virtual Vector &HessianEta(const Variable &x, const Vector &e, Vector *r) const { sym_true(gr, "gradient_before_hessian"); eqM(iv(x), root, "at_the_root"); Mx h = A * iv(e); Element z = e; realdp *p = z.ObtainWriteEntireData(); for (size_t i = 0; i < h.a.size(); i++) p[i] = h.a[i]; *r = z; return *r; }
};
void law_rq(int n, bool mn, bool re)
{
    Euclidean M(n); Mx root = Mx::sym("root", n), A(n, n), x = Mx::sym("x", n), e = Mx::sym("e", n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = sym_real(sym_fmt("A%d%d", i, j).c_str());
    SymHess P(A, root); Element R = toV(root); SphereTxRQ Q(&M, &R, &P, re ? !mn : mn); if (re) Q.SetMinOrMax(mn); double s = mn ? 1 : -1; Mx Ax = A * x, Ae = A * e;
    Element X = toV(x), G = toV(Mx::sym("old", n)), H = toV(e), E = toV(e); sym_eq(Q.f(X), s * dot(x, Ax), "cost"); Q.EucGrad(X, &G); eqM(iv(G), 2 * s * Ax, "gradient"); Q.EucHessianEta(X, E, &H); eqM(iv(H), 2 * s * Ae, "hessian");
    Element Y = toV(e); sym_eq(Q.f(Y), s * dot(e, Ae), "cost"); Q.EucGrad(X, &G); eqM(iv(G), 2 * s * Ax, "gradient_after_other_point"); eqM(iv(X), x, "point_unchanged"); eqM(iv(E), e, "direction_unchanged"); eqM(iv(R), root, "root_unchanged"); sym_reach("end");
}
// ---- proximal map on a tangent space. Plane in R^n, normal direction a; nonsmooth term lambda |.|_1, smooth part g
struct Line : public Euclidean
{
    Mx a; mutable int evals = 0, cap = 99; Line(const Mx &a) : Euclidean((int)a.a.size()), a(a) { IntrinsicDim = (int)a.a.size() - 1; ExtrinsicDim = (int)a.a.size(); IsIntrApproach = false; }
    virtual Vector &ObtainNorVerIntr(const Variable &, const Vector &e, Vector *r) const { double v[1] = {dot(a, iv(e))}; Element z(1); z.ObtainWriteEntireData()[0] = v[0]; *r = z; return *r; }
    virtual Vector &ObtainNorVerExtr(const Variable &, const Vector &c, Vector *r) const { *r = toV(c.ObtainReadData()[0] * a); return *r; }
    virtual Vector &Projection(const Variable &, const Vector &e, Vector *r) const { Mx v = iv(e); *r = toV(v - (dot(a, v) / dot(a, a)) * a); return *r; }
    virtual Vector &EW(const Variable &x, const Vector &B, const Vector &W, const Problem *p, Vector *r) const { if (++evals > cap) sym_stop(); return Manifold::EW(x, B, W, p, r); }
};
double soft(double v, double t) { if (v > t) return v - t; if (v < -t) return v + t; return 0; }
struct L1 : public Problem
{
    double lam, w; int n; L1(int n, double lam, double w) : lam(lam), w(w), n(n) {}
    virtual realdp f(const Variable &) const { return 0; }
    virtual Vector &PreConditioner(const Variable &, const Vector &, Vector *r) const { Element z(1); z.ObtainWriteEntireData()[0] = w; *r = z; return *r; }
    virtual Vector &ProxW(const Vector &x, const Vector &W, Vector *r) const { Mx v = iv(x); double l = lam / W.ObtainReadData()[0]; for (double &t : v.a) t = soft(t, l); *r = toV(v); return *r; }
    virtual Vector &CalJW(const Vector &x, const Vector &e, const Vector &W, Vector *r) const { Mx v = iv(x), u = iv(e); double l = lam / W.ObtainReadData()[0]; for (int i = 0; i < n; i++) if (!(v(i) > l) && !(v(i) < -l)) u(i) = 0; *r = toV(u); return *r; }
};
void proxmap(int n, double lam, int cap, bool start)
{
    Mx a(n), x(n); for (int i = 0; i < n; i++) { a(i) = i == 0 ? 1 : i % 2 ? -.5 : .25; x(i) = i == 0 ? 1 : i == 1 ? 2 : -1; } x(0) = -(dot(a, x) - x(0)); x(0) = x(0) + 1;
    Line M(a); M.cap = cap; double w = 2, ada = .5, wt = w * ada, tol = .0625; L1 P(n, lam, w); P.SetDomain(&M); Mx g(n); double s = sym_real("g0"); for (int i = 0; i < n; i++) g(i) = i == 0 ? s : .5 * i; if (n == 2) g(1) = sym_real("g1");
    Element X = toV(x), G = toV(g), D, R = toV(Mx::sym("old", n)); Mx d0(1); if (start) { d0(0) = sym_real("d0"); D = toV(d0); } integer it = -1, cg = -1;
    auto B = [&](double d) { return x - (1 / wt) * (g - d * a); }; auto Pr = [&](const Mx &b) { Mx v = b; for (double &t : v.a) t = soft(t, lam / wt); return v - x; };
    M.TangentSpaceProximalMap(X, G, ada, tol, .25, &P, &D, &it, &cg, &R); double d = D.ObtainReadData()[0]; Mx u = Pr(B(d)); double res = dot(a, u); sym_true(it >= 0 && it < 100 && cg >= 0, "counters");
    sym_le(res * res, tol, "residual"); Mx eta = u - (dot(a, u) / dot(a, a)) * a; eqM(iv(R), eta, "result"); sym_eq(dot(a, iv(R)), 0, "tangent"); if (it == 0 && start) sym_eq(d, d0(0), "start_kept"); eqM(iv(X), x, "point_unchanged"); eqM(iv(G), g, "gradient_unchanged"); sym_reach("end");
}
// arbitrary residuals: the result belongs to the multiplier handed back, which is an accepted one
struct Wild : public Line
{
    mutable int k = 0; Mx good; mutable std::vector<double> lam; Wild(const Mx &g) : Line(Mx::lit(2, 1, {1, 0})), good(g) {}
    virtual Vector &ComputeBLambda(const Variable &, const Vector &d, const Vector &, const Vector &, const Problem *, Vector *r) const { double t = d.ObtainReadData()[0]; Mx v(2); v(0) = t; v(1) = 3 * t; lam.push_back(t); *r = toV(v); return *r; }
    virtual Vector &EW(const Variable &, const Vector &B, const Vector &, const Problem *, Vector *r) const { double v = k < 2 ? good(k) : 4; k++; Element z(1); z.ObtainWriteEntireData()[0] = v; *r = z; return *r; }
    virtual Vector &GLdW(const Variable &, const Vector &d, const Vector &, const Vector &, const Problem *, Vector *r) const { Element z(1); z.ObtainWriteEntireData()[0] = d.ObtainReadData()[0]; *r = z; return *r; }
};
void proxstall()
{
    Mx F = Mx::sym("F", 2); sym_assume_lt(2, F(0)); sym_assume_lt(F(0), 4); sym_assume_lt(1, F(1)); sym_assume_lt(F(1), 1.5); Wild M(F); L1 P(2, 0, 1); P.SetDomain(&M); Element X = toV(Mx(2)), G = toV(Mx(2)), D, R; integer it = -1, cg = -1;
    M.TangentSpaceProximalMap(X, G, 1, .25, .25, &P, &D, &it, &cg, &R); double d = D.ObtainReadData()[0]; sym_true(it == 1, "stops_after_no_progress"); sym_true(M.lam.size() > 2, "tried"); sym_eq(d, M.lam[1], "last_accepted_multiplier");
    Mx r = iv(R); sym_eq(r(1), 3 * d, "result_of_that_multiplier"); sym_reach("end");
}
struct Init
{
    void both(const std::string &nm, Mk mk, int nb, bool num, int tier = 0)
    {
        reg("iface", nm, mk, nb, [](const MD &m) { law_iface(m); }, tier); if (!num) return; reg("numgrad", nm, mk, nb, [](const MD &m) { law_numgrad(m); }, tier); reg("numhess", nm, mk, nb, [](const MD &m) { law_numhess(m); }, tier);
    }
    Init()
    {
        for (int s = 1; s <= 4; s++) { both(sym_fmt("sphere3_%d", s), [s](int b) { return mkSphere(3, s, b); }, 2, s < 3); both(sym_fmt("stiefel32_%d", s), [s](int b) { return mkStiefel(3, 2, s, false, b); }, 2, s < 3); both(sym_fmt("spd2_%d", s), [s](int b) { return mkSPD(2, s, b); }, 2, s < 3); }
        both("stiefel32_canonical", [](int b) { return mkStiefel(3, 2, 2, true, b); }, 2, false); both("stiefel32_5", [](int b) { return mkStiefel(3, 2, 5, false, b); }, 2, false);
        both("grass32_intrinsic", [](int b) { return mkGrass(3, 2, true, b); }, 2, true); both("grass31", [](int b) { return mkGrass(3, 1, false, b); }, 2, true); both("grass42", [](int b) { return mkGrass(4, 2, true, b); }, 2, false, 1);
        both("euclidean", [](int b) { return mkEuc(2, 1, 1, false); }, 1, true); both("euclidean_complex", [](int b) { return mkEuc(2, 1, 1, true); }, 1, true); both("euclidean_several", [](int b) { return mkEuc(1, 2, 2, false); }, 1, true);
        for (int k = 0; k < 4; k++) sym_register_case(sym_fmt("rq_%s%s", k % 2 ? "max" : "min", k > 1 ? "_changed" : ""), [k] { law_rq(2, k % 2 == 0, k > 1); }); sym_register_case("rq_3", [] { law_rq(3, true, false); }, 1);
        sym_register_case("proxmap_smooth2", [] { proxmap(2, 0, 5, false); }); sym_register_case("proxmap_l1_2", [] { proxmap(2, .5, 3, false); }); sym_register_case("proxmap_l1_2s", [] { proxmap(2, .5, 2, true); }); sym_register_case("proxmap_l1_3", [] { proxmap(3, .5, 3, false); }); sym_register_case("proxstall", proxstall);
    }
} init;
}
