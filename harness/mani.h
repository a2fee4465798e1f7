// Generic manifold laws, checked against an independent description (MD) of each manifold.
#ifndef MANI_H
#define MANI_H
#include "Manifolds/Manifold.h"
#include "Problems/Problem.h"
#include "ref.h"
#include <memory>
struct DummyProb : public Problem { virtual realdp f(const Variable &x) const { return 0; } };
struct MD
{
    std::shared_ptr<Manifold> M;
    std::function<Element(const Mx &)> pt;                 // point with the given (ambient) coordinates
    std::function<Element(const Mx &)> vec;                // tangent vector with the given ambient coordinates
    std::function<Mx(const Element &)> ptv, vecv;          // their coordinates
    Mx x;                                                  // base point coordinates
    std::vector<Mx> B;                                     // basis of the tangent (horizontal) space at x, ambient coordinates
    std::function<double(const Mx &x, const Mx &a, const Mx &b)> ip;    // Riemannian metric
    std::function<double(const Mx &a, const Mx &b)> eip;   // metric of the embedding that euclidean gradients refer to
    std::function<void(const Mx &y, const char *)> onman;
    std::function<void(const Mx &x, const Mx &p, const char *)> tang;
    std::function<Mx(const Mx &y, const Mx &v)> hor;       // horizontal part at y (quotients)
    std::function<Element(const Mx &eta, double t)> curve; // point of a curve through x with velocity eta (default x + t eta)
    std::function<std::pair<Mx, Mx>(const Mx &eta)> gw;    // admissible Euclidean gradient and its derivative along eta (default: arbitrary)
    bool symg = false;   // Euclidean gradients are symmetric matrices
    bool flat = true;    // vectors of the current representation are paired with their flats by the dot product
    int d() const { return (int)B.size(); }
    Mx comb(const Mx &c) const { Mx v = c(0) * B[0]; for (int i = 1; i < d(); i++) v = v + c(i) * B[i]; return v; }
    Element X() const { return pt(x); }
    Element E() const { return M->GetEMPTYEXTR(); }
    Element I() const { return M->GetEMPTYINTR(); }
    bool intr() const { return M->GetIsIntrinsic(); }
};
inline void defaults(MD &m)
{
    int r = m.M->GetEMPTYEXTR().Getrow(), c = m.M->GetEMPTYEXTR().Getcol();
    if (!m.pt) m.pt = [r, c](const Mx &v) { Mx w(r, c); w.a = v.a; return toE(w); };
    if (!m.vec) m.vec = m.pt;
    auto f = [](const Element &e) { Mx v(e.Getlength()); v.a = vals(e); return v; };
    if (!m.ptv) m.ptv = f;
    if (!m.vecv) m.vecv = f;
    if (!m.curve) { auto pt = m.pt; Mx x = m.x; m.curve = [pt, x](const Mx &eta, double t) { return pt(x + t * eta); }; }
    if (!m.gw) { int n = m.x.a.size(); if (m.B.size()) n = m.B[0].a.size(); m.gw = [n](const Mx &) { return std::make_pair(Mx::sym("g", n), Mx::sym("w", n)); }; }
    if (!m.eip) m.eip = [](const Mx &a, const Mx &b) { return dot(a, b); };
    if (!m.ip) m.ip = [](const Mx &, const Mx &a, const Mx &b) { return dot(a, b); };
}
// a direction in the span of the basis with k symbolic parameters (k <= 2), the remaining coordinates fixed; k = 0: a multiple of any one basis vector
inline Mx dirk(const MD &m, const char *nm, int k, int shift = 0)
{
    static const double w[] = {1, .5, -1, 2, .25, -.5, 1.5, -2};
    if (k == 0) { int i = sym_choice(sym_fmt("%sdir", nm).c_str(), m.d()); return sym_real(sym_fmt("%s0", nm).c_str()) * m.B[i]; }
    if (k >= m.d()) return m.comb(Mx::sym(nm, m.d()));
    Mx c(m.d());
    for (int j = 0; j < k; j++) { double s = sym_real(sym_fmt("%s%d", nm, j).c_str()); for (int i = 0; i < m.d(); i++) if (i % k == j) c(i) = s * w[(i + 3 * shift) % 8]; }
    return m.comb(c);
}
// tangent vector in the representation the manifold is currently using
inline Element rep(const MD &m, const Element &X, const Mx &eta)
{
    Element e = m.vec(eta);
    if (!m.intr()) return e;
    Element i = m.I(); m.M->ObtainIntr(X, e, &i); return i;
}
inline Mx unrep(const MD &m, const Element &X, const Element &v)
{
    if (!m.intr()) return m.vecv(v);
    Element e = m.E(); m.M->ObtainExtr(X, v, &e); return m.vecv(e);
}
inline Mx iv(const Element &e) { Mx v(e.Getlength()); v.a = vals(e); return v; }

// ---- M01: projection
inline void law_proj(const MD &m)
{
    Element X = m.X(); Mx v = Mx::sym("v", m.x.a.size()); Element V = m.vec(v), P = m.E();
    if ((int)m.vecv(V).a.size() != (int)v.a.size()) { Mx w = Mx::sym("v", m.B[0].a.size()); v = w; V = m.vec(v); }
    m.M->ExtrProjection(X, V, &P); Mx p = m.vecv(P);
    m.tang(m.x, p, "tangent");
    for (int i = 0; i < m.d(); i++) sym_eq(m.ip(m.x, v, m.B[i]), m.ip(m.x, p, m.B[i]), "orthogonal[%d]", i);
    eqM(m.vecv(V), v, "input_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged");
    Element W = V; m.M->ExtrProjection(X, W, &W); eqM(m.vecv(W), p, "in_place"); eqM(m.vecv(V), v, "input_unchanged_shared");
    bool b = m.intr(); m.M->SetIsIntrApproach(false); Element Q = m.E(); m.M->Projection(X, V, &Q); eqM(m.vecv(Q), p, "projection_dispatch_extrinsic");
    m.M->SetIsIntrApproach(b);
}
// ---- M03: coordinates of tangent vectors
inline Element coords(const MD &m, const Mx &c) { Element C = m.I(); realdp *p = C.ObtainWriteEntireData(); for (size_t i = 0; i < c.a.size(); i++) p[i] = c.a[i]; return C; }
inline void law_intr(const MD &m)
{
    Element X = m.X(); int d = m.M->GetIntrDim(); sym_true(d == m.d(), "dimension");
    Mx c = Mx::sym("c", d); Element C = coords(m, c), E = m.E(), C2 = m.I(); m.M->ObtainExtr(X, C, &E); Mx e = m.vecv(E);
    m.tang(m.x, e, "tangent");
    sym_eq(m.ip(m.x, e, e), dot(c, c), "isometry");
    m.M->ObtainIntr(X, E, &C2); eqM(iv(C2), c, "intr_of_extr");
    Mx g = Mx::sym("g", d); Mx u = m.comb(g); Element U = m.vec(u), CU = m.I(), U2 = m.E();
    m.M->ObtainIntr(X, U, &CU); m.M->ObtainExtr(X, CU, &U2); eqM(m.vecv(U2), u, "extr_of_intr");
    eqM(m.vecv(U), u, "input_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged"); eqM(iv(C), c, "coordinates_unchanged");
    bool b = m.intr(); m.M->SetIsIntrApproach(true); sym_eq(m.M->Metric(X, CU, C), dot(iv(CU), c), "metric_in_coordinates");
    Element PIc = m.I(); m.M->Projection(X, C, &PIc); eqM(iv(PIc), c, "projection_in_coordinates"); m.M->SetIsIntrApproach(b);
    // a fresh copy of the point gives the same coordinates
    Element X2 = m.X(), C3 = m.I(); m.M->ObtainIntr(X2, U, &C3); eqM(iv(C3), iv(CU), "coordinates_reproducible");
}
// ---- M07: metric
inline void law_metric_(const MD &m, bool basic)
{
    sym_true(!m.M->GetHasHHR(), "locking_option_off_by_default");
    Element X = m.X(); Mx c = Mx::sym("c", m.d()), g = Mx::sym("g", m.d()); Mx u = m.comb(c), v = m.comb(g); Element U = m.vec(u), V = m.vec(v);
    bool b = m.intr(); m.M->SetIsIntrApproach(false);
    sym_eq(m.M->Metric(X, U, V), m.ip(m.x, u, v), "metric"); sym_eq(m.M->Metric(X, V, U), m.ip(m.x, u, v), "symmetric");
    m.M->SetIsIntrApproach(b);
    if (basic) return;
    Element a = rep(m, X, u), w = rep(m, X, v); sym_eq(m.M->Metric(X, a, w), m.ip(m.x, u, v), "metric_representation");
    double s = sym_real("s"), t = sym_real("t"); Mx lc = s * iv(a) + t * iv(w);
    Element R = m.M->GetEMPTY(); m.M->VectorLinearCombination(X, s, a, t, w, &R); eqM(iv(R), lc, "linear_combination");
    Element R2 = m.M->GetEMPTY(); m.M->ScalarTimesVector(X, s, a, &R2); eqM(iv(R2), s * iv(a), "scaling");
    Element R3 = m.M->GetEMPTY(); m.M->ScalarVectorAddVector(X, s, a, w, &R3); eqM(iv(R3), s * iv(a) + iv(w), "scaled_addition");
    Mx a0 = iv(a), w0 = iv(w);
    Element A = a; m.M->ScalarTimesVector(X, s, A, &A); eqM(iv(A), s * a0, "scaling_in_place"); eqM(iv(a), a0, "first_operand_unchanged");
    Element W = w; m.M->ScalarVectorAddVector(X, s, a, W, &W); eqM(iv(W), s * a0 + w0, "scaled_addition_in_place"); eqM(iv(w), w0, "second_operand_unchanged");
    Element W2 = w; m.M->VectorLinearCombination(X, s, a, t, W2, &W2); eqM(iv(W2), lc, "linear_combination_in_place");
    if (!m.flat) return;
    Element Z = a; m.M->ObtainEtaxFlat(X, a, &Z); sym_eq(Z.DotProduct(w), m.ip(m.x, u, v), "flat");
}
inline void law_metric(const MD &m) { law_metric_(m, false); }
inline void law_metric0(const MD &m) { law_metric_(m, true); }
// ---- M02: retraction. k: number of symbolic parameters of the step
inline void law_retr(const MD &m, int k, int kd, bool zero = true)
{
    Element X = m.X();
    Mx eta = dirk(m, "e", k); Element V = rep(m, X, eta); Mx v0 = iv(V);
    Element Y = m.X(); m.M->Retraction(X, V, &Y); Mx y = m.ptv(Y);
    m.onman(y, "on_manifold");
    eqM(iv(V), v0, "step_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged");
    if (!zero) return;
    Element X2 = m.X(); Element Z = rep(m, X2, 0. * m.B[0]), Y0 = m.X(); m.M->Retraction(X2, Z, &Y0); Mx y0 = m.ptv(Y0); m.onman(y0, "zero_on_manifold");
}
inline void law_retr_zero(const MD &m)      // R_x(0) = x
{
    Element X = m.X(); Element Z = rep(m, X, 0. * m.B[0]), Y0 = m.X(); m.M->Retraction(X, Z, &Y0); eqM(m.ptv(Y0), m.x, "centering");
}
inline void law_retr_d(const MD &m, int kd)   // d/dt R_x(t eta) at 0 is eta
{
    Mx dir = dirk(m, "d", kd, 1);
    std::vector<double> dd = sym_ddt([&](double t) { Element X1 = m.X(), Y1 = m.X(); Element T = rep(m, X1, t * dir); m.M->Retraction(X1, T, &Y1); return m.ptv(Y1).a; });
    Mx D(dd.size()); D.a = dd; if (m.hor) D = m.hor(m.x, D); eqM(D, dir, "local_rigidity");
}

// ---- a step eta with k symbolic parameters and the point it leads to
struct Step { Element X, E, Y; Mx eta, y; };
inline Step step(const MD &m, int k)
{
    Step s; s.X = m.X(); s.eta = dirk(m, "e", k); s.E = rep(m, s.X, s.eta); s.Y = m.X(); m.M->Retraction(s.X, s.E, &s.Y); s.y = m.ptv(s.Y); return s;
}
inline Mx randtan(const MD &m, const Element &X, const char *nm, Element *out)    // arbitrary tangent vector at an arbitrary point X
{
    if (m.intr() && m.M->GetEMPTYINTR().Getlength() == m.M->GetIntrDim()) { Mx c = Mx::sym(nm, m.M->GetIntrDim()); *out = coords(m, c); return unrep(m, X, *out); }
    Mx v = Mx::sym(nm, m.B[0].a.size()); Element V = m.vec(v), P = m.E(); m.M->ExtrProjection(X, V, &P); if (!m.intr()) { *out = P; return m.vecv(P); } *out = m.I(); m.M->ObtainIntr(X, P, out); return m.vecv(P);
}
// ---- M04: vector transport
inline void law_vt(const MD &m, int k, bool isometric, bool invertible, bool ident = true)
{
    Step s = step(m, k); Mx c = Mx::sym("c", m.d()); Mx u = m.comb(c); Element U = rep(m, s.X, u), T = m.M->GetEMPTY(); Mx u0 = iv(U);
    m.M->VectorTransport(s.X, s.E, s.Y, U, &T); Mx t = unrep(m, s.Y, T);
    m.tang(s.y, t, "tangent");
    if (isometric) sym_eq(m.M->Metric(s.Y, T, T), m.M->Metric(s.X, U, U), "isometric");
    Mx g = Mx::sym("g", m.d()); Element V = rep(m, s.X, m.comb(g)), TV = m.M->GetEMPTY(), W = m.M->GetEMPTY(), TW = m.M->GetEMPTY();
    double al = sym_real("al"); m.M->VectorTransport(s.X, s.E, s.Y, V, &TV); W = rep(m, s.X, al * u + m.comb(g)); m.M->VectorTransport(s.X, s.E, s.Y, W, &TW);
    eqM(iv(TW), al * iv(T) + iv(TV), "linear");
    if (invertible)
    {
        Element R = m.M->GetEMPTY(); m.M->InverseVectorTransport(s.X, s.E, s.Y, T, &R); eqM(iv(R), u0, "inverse");
        Element A2 = T; m.M->InverseVectorTransport(s.X, s.E, s.Y, A2, &A2); eqM(iv(A2), u0, "inverse_in_place");
    }
    eqM(iv(U), u0, "input_unchanged"); eqM(m.ptv(s.X), m.x, "point_unchanged"); eqM(m.ptv(s.Y), s.y, "target_unchanged");
    Element A = U; m.M->VectorTransport(s.X, s.E, s.Y, A, &A); eqM(iv(A), iv(T), "in_place"); eqM(iv(U), u0, "shared_input_unchanged");
}
inline void law_vt_id(const MD &m)
{
    Element X = m.X(), E = rep(m, X, 0. * m.B[0]), Y = m.X(); m.M->Retraction(X, E, &Y); Mx u = m.comb(Mx::sym("c", m.d())); Element U = rep(m, X, u), T = m.M->GetEMPTY();
    m.M->VectorTransport(X, E, Y, U, &T); eqM(unrep(m, Y, T), u, "identity_at_zero");
}
// ---- M05: differentiated retraction etc.
inline void law_diff(const MD &m, int k, bool same)
{
    Step s = step(m, k); Mx xi = same ? s.eta : m.comb(Mx::sym("c", m.d())); if (same) sym_assume_ne(dot(s.eta, s.eta), 0); double al = 1; if (same) { al = sym_pos("al"); xi = al * s.eta; }
    Element XI = rep(m, s.X, xi), D = m.M->GetEMPTY(); m.M->DiffRetraction(s.X, s.E, s.Y, XI, &D, same); Mx d = unrep(m, s.Y, D);
    std::vector<double> dd = sym_ddt([&](double t) { Element X1 = m.X(), Y1 = m.X(); Element T = rep(m, X1, s.eta + t * xi); m.M->Retraction(X1, T, &Y1); return m.ptv(Y1).a; });
    Mx R(dd.size()); R.a = dd; if (m.hor) { R = m.hor(s.y, R); m.tang(s.y, d, "horizontal"); } eqM(d, R, "is_derivative");
    Element A = XI; m.M->DiffRetraction(s.X, s.E, s.Y, A, &A, same); eqM(unrep(m, s.Y, A), d, "in_place"); eqM(unrep(m, s.X, XI), xi, "input_unchanged"); eqM(unrep(m, s.X, s.E), s.eta, "step_unchanged"); eqM(m.ptv(s.X), m.x, "point_unchanged"); eqM(m.ptv(s.Y), s.y, "target_unchanged");
}
inline void law_cot(const MD &m, int k)
{
    Step s = step(m, k); Element Z; randtan(m, s.Y, "z", &Z); Mx z0 = iv(Z);
    Element C = m.M->GetEMPTY(); m.M->coTangentVector(s.X, s.E, s.Y, Z, &C); m.tang(m.x, unrep(m, s.X, C), "tangent");
    for (int i = 0; i < m.d(); i++)
    {
        Element XI = rep(m, s.X, m.B[i]), D = m.M->GetEMPTY(); m.M->DiffRetraction(s.X, s.E, s.Y, XI, &D, false);
        sym_eq(m.M->Metric(s.Y, D, Z), m.M->Metric(s.X, XI, C), "adjoint[%d]", i);
    }
    eqM(iv(Z), z0, "input_unchanged"); Element A = Z; m.M->coTangentVector(s.X, s.E, s.Y, A, &A); eqM(iv(A), iv(C), "in_place");
}
inline void law_lock(const MD &m, int k)    // with the locking-condition option: T_eta eta = beta DR_eta[eta], T isometric, beta the norm ratio
{
    m.M->SetHasHHR(true); sym_div0_assume(true);
    Step s = step(m, k); sym_assume_ne(dot(s.eta, s.eta), 0); Element D = m.M->GetEMPTY(), T = m.M->GetEMPTY(), XI = rep(m, s.X, 2. * s.eta);     // the direction is a multiple of the step, as in a line search
    m.M->DiffRetraction(s.X, s.E, s.Y, XI, &D, true); double b = m.M->Beta(s.X, s.E);
    sym_eq(b * b * m.M->Metric(s.Y, D, D), 4 * m.M->Metric(s.X, s.E, s.E), "beta"); sym_le(0, b, "beta_positive");
    m.M->VectorTransport(s.X, s.E, s.Y, s.E, &T); eqM(iv(T), (.5 * b) * iv(D), "locking");
    sym_true(m.M->GetHasHHR(), "option_kept");
}
inline void law_rand(const MD &m)    // random points lie on the manifold, whatever numbers the generator returns
{
    sym_div0_assume(true); Element E0 = m.M->GetEMPTYEXTR(), R = m.M->RandominManifold();
    sym_true(R.Getiscomplex() == E0.Getiscomplex() && R.Getlength() == E0.Getlength() && R.Getnumofelements() == E0.Getnumofelements() && R.Getnumoftypes() == E0.Getnumoftypes() && R.Getrow() == E0.Getrow() && R.Getcol() == E0.Getcol() && R.Getnum() == E0.Getnum(), "shape");
    Mx r = m.ptv(R); m.onman(r, "on_manifold");
    Element Q = m.M->RandominManifold(); eqM(m.ptv(R), r, "unchanged_by_second_point");
}
inline void law_lockvt(const MD &m, int k, bool invertible)
{
    m.M->SetHasHHR(true); sym_div0_assume(true);
    Step s = step(m, k); Element U = rep(m, s.X, m.comb(Mx::sym("c", m.d()))), TU = m.M->GetEMPTY(), R = m.M->GetEMPTY(); Mx u0 = iv(U);
    m.M->VectorTransport(s.X, s.E, s.Y, U, &TU); sym_eq(m.M->Metric(s.Y, TU, TU), m.M->Metric(s.X, U, U), "isometric");
    m.tang(s.y, unrep(m, s.Y, TU), "tangent");
    if (invertible) { m.M->InverseVectorTransport(s.X, s.E, s.Y, TU, &R); eqM(iv(R), u0, "inverse"); }
    sym_true(m.M->GetHasHHR(), "option_kept");
}
// ---- M06: gradient and Hessian conversion. egfs(v): turn an arbitrary array into an admissible Euclidean gradient
inline void law_grad(const MD &m)
{
    Element X = m.X(); Mx g = m.gw(0. * m.B[0]).first; Element G = m.vec(g), R = m.E(); DummyProb P; P.SetUseHess(false);
    m.M->EucGradToGrad(X, G, &P, &R); Mx r = m.vecv(R); m.tang(m.x, r, "tangent");
    for (int i = 0; i < m.d(); i++) sym_eq(m.ip(m.x, r, m.B[i]), m.eip(g, m.B[i]), "riesz[%d]", i);
    eqM(m.vecv(G), g, "input_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged");
    Element A = m.vec(g), X2 = m.X(); m.M->EucGradToGrad(X2, A, &P, &A); eqM(m.vecv(A), r, "in_place");
    Element G3 = m.vec(g), X3 = m.X(), R3 = m.E(); P.SetUseHess(true); m.M->EucGradToGrad(X3, G3, &P, &R3); eqM(m.vecv(R3), r, "with_hessian_use");
    sym_true(X3.FieldsExist("EGrad"), "keeps_gradient");
}
inline void law_hess(const MD &m, int k = 99)
{
    Mx eta = k >= m.d() ? m.comb(Mx::sym("c", m.d())) : dirk(m, "c", k); std::pair<Mx, Mx> gw = m.gw(eta); Mx g = gw.first, w = gw.second; DummyProb P; P.SetUseHess(true);
    Element X = m.X(), G = m.vec(g), V = m.E(); m.M->EucGradToGrad(X, G, &P, &V); Mx v = m.vecv(V);
    Element ET = m.vec(eta), W = m.vec(w), H = m.E(); m.M->EucHvToHv(X, ET, W, &P, &H); Mx h = m.vecv(H);
    m.tang(m.x, h, "tangent");
    std::vector<double> dv = sym_ddt([&](double t) { DummyProb Q; Q.SetUseHess(true); Element X1 = m.curve(eta, t), G1 = m.vec(g + t * w), V1 = m.E(); m.M->EucGradToGrad(X1, G1, &Q, &V1); return m.vecv(V1).a; });
    Mx DV(dv.size()); DV.a = dv;
    auto dip = [&](const Mx &dir, const Mx &a, const Mx &b) { return sym_ddt([&](double t) { return std::vector<double>{m.ip(m.x + t * dir, a, b)}; })[0]; };
    for (int i = 0; i < m.d(); i++)
    {
        const Mx &xi = m.B[i];
        sym_eq(m.ip(m.x, h, xi), m.ip(m.x, DV, xi) + .5 * (dip(eta, v, xi) + dip(v, eta, xi) - dip(xi, eta, v)), "covariant_derivative[%d]", i);
    }
    eqM(m.vecv(ET), eta, "direction_unchanged"); eqM(m.vecv(W), w, "input_unchanged");
    { Element X2 = m.X(), GV = m.vec(g), H2 = m.E(); m.M->EucGradToGrad(X2, GV, &P, &GV); m.M->EucHvToHv(X2, ET, W, &P, &H2); eqM(m.vecv(H2), h, "after_gradient_in_place"); }
    Element A = m.vec(w); m.M->EucHvToHv(X, ET, A, &P, &A); eqM(m.vecv(A), h, "in_place");
}
// ---- M03: coordinates of normal vectors. Bn: basis of the normal space
inline void law_normal(const MD &m, const std::vector<Mx> &Bn)
{
    Element X = m.X(); int d = (int)Bn.size(); Mx c = Mx::sym("c", d), v = c(0) * Bn[0]; for (int i = 1; i < d; i++) v = v + c(i) * Bn[i];
    Element V = m.vec(v), C(d), V2 = m.E(); m.M->ObtainNorVerIntr(X, V, &C); m.M->ObtainNorVerExtr(X, C, &V2); eqM(iv(V2), v, "extr_of_intr");
    sym_eq(dot(iv(C), iv(C)), dot(v, v), "isometry"); eqM(iv(V), v, "input_unchanged");
    Element X2 = m.X(), D = toV(c), W = m.E(), D2(d); m.M->ObtainNorVerExtr(X2, D, &W); for (int i = 0; i < m.d(); i++) sym_eq(dot(iv(W), m.B[i]), 0, "normal[%d]", i);
    m.M->ObtainNorVerIntr(X2, W, &D2); eqM(iv(D2), c, "intr_of_extr");
    // tangent part is ignored
    Element U = m.vec(v + m.comb(Mx::sym("g", m.d()))), C3(d); m.M->ObtainNorVerIntr(X, U, &C3); eqM(iv(C3), iv(C), "ignores_tangent_part");
}
// ---- M09: operators
inline Mx opmat(const Element &H) { int n = H.Getsize()[0]; return toM(H, n, n); }
inline void law_ope(const MD &m)
{
    Element X = m.X(); int n = m.M->GetEMPTY().Getlength() ; Mx h = Mx::sym("h", n, n), u = Mx::sym("u", n), v = Mx::sym("v", n);
    Element H = toE(h); Element U = m.M->GetEMPTY(), V = m.M->GetEMPTY(), R = m.M->GetEMPTY();
    { realdp *p = U.ObtainWriteEntireData(), *q = V.ObtainWriteEntireData(); for (int i = 0; i < n; i++) { p[i] = u.a[i]; q[i] = v.a[i]; } }
    m.M->LinearOPEEta(X, H, U, &R); eqM(iv(R), h * u, "apply"); eqM(iv(U), u, "apply_input_unchanged"); sym_true(R.Getiscomplex() == U.Getiscomplex(), "apply_type");
    Element U2 = U; m.M->LinearOPEEta(X, H, U2, &U2); eqM(iv(U2), h * u, "apply_in_place"); eqM(iv(U), u, "apply_shared_unchanged");
    double s = sym_real("s"); Element S(n, n); m.M->HaddScaledRank1OPE(X, H, s, U, V, &S); eqM(opmat(S), h + s * (u * v.t()), "rank_one");
    eqM(iv(U), u, "rank_one_u_unchanged"); eqM(iv(V), v, "rank_one_v_unchanged");
    eqM(opmat(H), h, "rank_one_operator_unchanged");
    m.M->HaddScaledRank1OPE(X, S, s, V, V, &S); eqM(opmat(S), h + s * (u * v.t()) + s * (v * v.t()), "rank_one_in_place");
}
inline void law_opetr(const MD &m, int k, bool hhr)    // transports of operators agree with transports of vectors
{
    if (hhr) { m.M->SetHasHHR(true); sym_div0_assume(true); }
    Step s = step(m, k); int n = m.M->GetEMPTY().Getlength(); Mx h = Mx::sym("h", n, n);
    if (!m.intr()) { Mx Pr(n, n); for (auto &b : m.B) Pr = Pr + (1 / dot(b, b)) * (b * b.t()); h = Pr * h * Pr; }   // operators on the tangent space; orthogonal basis
    Element H = toE(h), A(n, n), B(n, n), C(n, n);
    m.M->TranHInvTran(s.X, s.E, s.Y, H, &A); m.M->HInvTran(s.X, s.E, s.Y, H, 0, n, &B); m.M->TranH(s.X, s.E, s.Y, H, 0, n, &C);
    eqM(opmat(H), h, "operator_unchanged");
    Element A2 = H, B2 = H, C2 = H; m.M->TranHInvTran(s.X, s.E, s.Y, A2, &A2); eqM(opmat(A2), opmat(A), "T_H_invT_in_place"); m.M->HInvTran(s.X, s.E, s.Y, B2, 0, n, &B2); eqM(opmat(B2), opmat(B), "H_invT_in_place"); m.M->TranH(s.X, s.E, s.Y, C2, 0, n, &C2); eqM(opmat(C2), opmat(C), "T_H_in_place");
    int d = m.d();
    for (int i = 0; i < d; i++)
    {
        Element U = rep(m, s.X, m.B[i]), TU = m.M->GetEMPTY(), HU = m.M->GetEMPTY(), THU = m.M->GetEMPTY(), R = m.M->GetEMPTY();
        m.M->VectorTransport(s.X, s.E, s.Y, U, &TU); m.M->LinearOPEEta(s.X, H, U, &HU);
        m.M->LinearOPEEta(s.Y, B, TU, &R); eqM(iv(R), iv(HU), sym_fmt("H_invT_%d", i).c_str());
        {
            m.M->VectorTransport(s.X, s.E, s.Y, HU, &THU);
            m.M->LinearOPEEta(s.Y, A, TU, &R); eqM(iv(R), iv(THU), sym_fmt("T_H_invT_%d", i).c_str());
            m.M->LinearOPEEta(s.X, C, U, &R); eqM(iv(R), iv(THU), sym_fmt("T_H_%d", i).c_str());
        }
    }
    int N = n + 2, o = 1; Mx g = Mx::sym("g", N, N);    // the same for a block inside a larger operator
    if (!m.intr()) { Mx P(N, N); P(0, 0) = P(N - 1, N - 1) = 1; for (auto &b : m.B) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) P(i + o, j + o) = P(i + o, j + o) + b.a[i] * b.a[j] / dot(b, b); g = P * g * P; }
    Element G = toE(g), Bb(N, N), Cb(N, N); m.M->HInvTran(s.X, s.E, s.Y, G, o, o + n, &Bb); m.M->TranH(s.X, s.E, s.Y, G, o, o + n, &Cb); eqM(opmat(G), g, "block_operator_unchanged"); Mx b2 = opmat(Bb), c2 = opmat(Cb);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { if (j < o || j >= o + n) sym_eq(b2(i, j), g(i, j), "outside_block_kept_right"); if (i < o || i >= o + n) sym_eq(c2(i, j), g(i, j), "outside_block_kept_left"); }
    for (int q = 0; q < d; q++)
    {
        Element U = rep(m, s.X, m.B[q]), TU = m.M->GetEMPTY(), V = m.M->GetEMPTY(), TV = m.M->GetEMPTY(); m.M->VectorTransport(s.X, s.E, s.Y, U, &TU); Mx u = iv(U), tu = iv(TU);
        for (int i = 0; i < N; i++) { double l = 0, r = 0; for (int j = 0; j < n; j++) { l = l + b2(i, o + j) * tu.a[j]; r = r + g(i, o + j) * u.a[j]; } sym_eq(l, r, "block_H_invT"); }
    }
    for (int q = 0; q < 2; q++)
    {
        int col = q ? o + n : 0; Element V = m.M->GetEMPTY(), TV = m.M->GetEMPTY(); { realdp *p = V.ObtainWriteEntireData(); for (int i = 0; i < n; i++) p[i] = g(o + i, col); } m.M->VectorTransport(s.X, s.E, s.Y, V, &TV); Mx tv = iv(TV); for (int i = 0; i < n; i++) sym_eq(c2(o + i, col), tv.a[i], "block_T_H");
    }
    sym_true(m.M->GetHasHHR() == hhr, "option_kept");
}

inline void law_inv(const MD &m, int k)    // inverse retraction
{
    Step s = step(m, k); Element X2 = m.X(), Y2 = m.pt(s.y), R = m.M->GetEMPTY(); m.M->InvRetraction(X2, Y2, &R); eqM(unrep(m, X2, R), s.eta, "inverse_retraction");
}
inline void law_reuse(const MD &m, int k)    // the result of a retraction does not depend on what the output variable held before
{
    Step s = step(m, k); Mx d2 = dirk(m, "f", 1, 2); Element X = m.X(), F = rep(m, X, d2), Y = m.X(); m.M->Retraction(X, F, &Y); m.M->Retraction(X, s.E, &Y); eqM(m.ptv(Y), s.y, "reused_output");
    Element C = m.M->GetEMPTY(), D = m.M->GetEMPTY(); Element Z = m.M->GetEMPTY(); Mx z = Mx::sym("z", m.B[0].a.size()); Element ZV = m.vec(z), P = m.E(); m.M->ExtrProjection(s.Y, ZV, &P);
    Element i1 = m.I(), i2 = m.I(); m.M->ObtainIntr(s.Y, P, &i1); m.M->ObtainIntr(Y, P, &i2); eqM(iv(i1), iv(i2), "reused_output_coordinates");
}
#endif
