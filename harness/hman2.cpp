#include "mkman.h"
#include "Manifolds/SphereTx.h"
#include "Manifolds/SymFixedRankQ.h"
#include "Manifolds/FixedRankE.h"
#include "Manifolds/FixedRankQ2F.h"
extern void sym_register_svd(int m, int n, const double *U, const double *S, const double *V);
extern void sym_register_eig(int n, const double *Q, const double *D);
// a step of the exponential map with a known eigen-decomposition: eta = L Q D Q' L'
struct SpdStep { Step s; Mx y, E; };
static SpdStep spdstep(const MD &m, int n, int b, int vi, bool tau = false)
{
    SpdStep r; Mx L = spdL(n, b), Q = fixedrot(n, vi), D = Mx::sym("d", n), h = .5 * D, hn = -.5 * D;
    sym_register_eig(n, Q.a.data(), D.a.data()); sym_register_eig(n, Q.a.data(), h.a.data()); sym_register_eig(n, Q.a.data(), hn.a.data());
    Mx DD(n, n), EX(n, n), EH(n, n); for (int i = 0; i < n; i++) { DD(i, i) = D(i); EX(i, i) = std::exp(D(i)); EH(i, i) = std::exp(h(i)); }
    r.s.eta = flat(L * Q * DD * Q.t() * L.t()); r.y = L * Q * EX * Q.t() * L.t(); r.E = L * Q * EH * Q.t() * inv(L);
    r.s.X = m.X(); r.s.E = rep(m, r.s.X, r.s.eta); r.s.Y = m.X(); m.M->Retraction(r.s.X, r.s.E, &r.s.Y); r.s.y = m.ptv(r.s.Y); return r;
}
static void spdexp(const std::string &what, int n, int set)
{
    int b = sym_choice("base", 3), vi = sym_choice("vdir", 3); MD m = mkSPD(n, set, b); SpdStep r = spdstep(m, n, b, vi); Step &s = r.s;
    if (what == "retr") { m.onman(s.y, "on_manifold"); eqM(s.y, flat(r.y), "geodesic"); eqM(m.ptv(s.X), m.x, "point_unchanged"); eqM(m.vecv(s.E), s.eta, "step_unchanged"); }
    if (what == "vt")
    {
        Mx u = m.comb(Mx::sym("c", m.d())); Element U = rep(m, s.X, u), T = m.M->GetEMPTY(), R = m.M->GetEMPTY(); m.M->VectorTransport(s.X, s.E, s.Y, U, &T); Mx t = m.vecv(T); m.tang(s.y, t, "tangent");
        eqM(t, flat(r.E * rect(u, n, n) * r.E.t()), "parallel_translation"); if (set == 3) sym_eq(m.ip(s.y, t, t), m.ip(m.x, u, u), "isometric");
        m.M->InverseVectorTransport(s.X, s.E, s.Y, T, &R); eqM(m.vecv(R), u, "inverse");
    }
}
static void spddist(int n, int set)
{
    int b = sym_choice("base", 3), vi = sym_choice("vdir", 3); MD m = mkSPD(n, set, b); Mx L = spdL(n, b), Q = fixedrot(n, vi), D(n), Dm(n, n);
    for (int i = 0; i < n; i++) { D(i) = sym_pos(sym_fmt("l%d", i).c_str()); Dm(i, i) = D(i); }
    sym_register_eig(n, Q.a.data(), D.a.data()); Mx y = flat(L * Q * Dm * Q.t() * L.t()); Element X = m.X(), Y = m.pt(y); double d = m.M->Dist(X, Y);
    double ref = 0; if (set == 2) ref = dot(y - m.x, y - m.x); else for (int i = 0; i < n; i++) ref += std::log(D(i)) * std::log(D(i));
    sym_eq(d * d, ref, "geodesic_distance"); sym_le(0, d, "nonnegative"); Element X2 = m.X(), X3 = m.X(); double z = m.M->Dist(X2, X3); sym_eq(z, 0, "distance_to_itself");
}
// ---------------------------------------------------------------- sphere in a tangent space
struct TxMani : public SphereTx { std::shared_ptr<Manifold> base; TxMani(std::shared_ptr<Manifold> b, Variable *r) : SphereTx(b.get(), r), base(b) {} };
static MD mkTx(bool intr, int b)
{
    MD m; auto S = std::make_shared<Sphere>(3); if (intr) S->ChooseParamsSet1(); else S->ChooseParamsSet2();
    Mx Q = fixedrot(3, b), root = flat(Q.col(0)); Element R = toE(rect(root, 3, 1));
    auto T = std::make_shared<TxMani>(S, &R); m.M = T;
    Mx P = fixedrot(2, b + 1); Mx u = flat(Q.col(1, 2) * P.col(0)), v = flat(Q.col(1, 2) * P.col(1));
    if (intr)
    {
        Element I1 = S->GetEMPTYINTR(), I2 = I1; S->ObtainIntr(T->root, toE(rect(u, 3, 1)), &I1); S->ObtainIntr(T->root, toE(rect(v, 3, 1)), &I2);
        m.x = iv(I1); m.B.push_back(iv(I2));
        m.tang = [](const Mx &y, const Mx &e, const char *l) { sym_eq(dot(y, e), 0, "%s", l); }; m.onman = [](const Mx &y, const char *l) { sym_eq(dot(y, y), 1, "%s", l); };
    }
    else
    {
        m.x = u; m.B.push_back(v);
        m.tang = [root](const Mx &y, const Mx &e, const char *l) { sym_eq(dot(y, e), 0, "%s", l); sym_eq(dot(root, e), 0, "%s", l); }; m.onman = [root](const Mx &y, const char *l) { sym_eq(dot(y, y), 1, "%s", l); sym_eq(dot(root, y), 0, "%s", l); };
        m.gw = [root](const Mx &) { Mx g = Mx::sym("g", 3), w = Mx::sym("w", 3); return std::make_pair(g - dot(root, g) * root, w - dot(root, w) * root); };
    }
    defaults(m); return m;
}
// ---------------------------------------------------------------- symmetric fixed-rank, quotient by the orthogonal group
static Mx sfrqX(int n, int p, int b)
{
    if (p == 1) { Mx x(n, 1); x(0, 0) = b < 0 ? sym_pos("bt") : b == 0 ? 1 : b == 1 ? 3 : -2; x(1, 0) = b == 1 ? 4 : b == 2 ? 1.5 : 0; if (n > 2) x(2, 0) = b == 1 ? 12 : b == 2 ? 0 : 0; return x; }
    Mx Q = fixedrot(n, b < 0 ? 1 : b), R = Mx::lit(2, 2, {2, -1, 0, .5}); if (b == 0) R = Mx::eye(2); if (b == 2) R = Mx::lit(2, 2, {-1, .5, 0, 3}); if (b < 0) R(0, 1) = sym_real("bt");
    return Q.col(0, 2) * R;
}
// metric: 0 EUC, 1 HGZ, 2 QEUC
static MD mkSFRQ(int n, int p, int set, bool intr, int b)
{
    MD m; auto S = std::make_shared<SymFixedRankQ>(n, p); m.M = S;
    switch (set) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; case 4: S->ChooseParamsSet4(); break; case 5: S->ChooseParamsSet5(); break; case 6: S->ChooseParamsSet6(); }
    S->SetIsIntrApproach(intr); m.flat = intr || set % 3 == 0; int met = (set - 1) % 3; Mx x = sfrqX(n, p, b); m.x = flat(x); Mx G = x.t() * x, Gi = inv(G);
    // horizontal space: x A S + x_perp K with S symmetric, A = I (EUC, HGZ) or (x'x)^-1 (QEUC)
    Mx A = met == 2 ? Gi : Mx::eye(p);
    for (int i = 0; i < p; i++) for (int j = 0; j <= i; j++) { Mx s(p, p); s(i, j) = s(j, i) = 1; m.B.push_back(flat(x * A * s)); }
    for (int i = 0; i < n - p; i++) for (int j = 0; j < p; j++) { Mx k = unitm(n, p, p + i, j), q = p == 1 ? unitm(n, 1, 1 + i, 0) : fixedrot(n, b < 0 ? 1 : b) * k; m.B.push_back(flat(q - x * (Gi * (x.t() * q)))); }
    m.tang = [n, p, met](const Mx &y, const Mx &e, const char *l) { Mx Y = rect(y, n, p), W = Y.t() * rect(e, n, p); if (met != 2) W = inv(Y.t() * Y) * W; for (int i = 0; i < p; i++) for (int j = 0; j < i; j++) sym_eq(W(i, j), W(j, i), "%s", l); };
    m.onman = [](const Mx &, const char *) {};
    m.hor = [n, p, met](const Mx &y, const Mx &v) {
        if (p == 1) return v; Mx Y = rect(y, n, p), V = rect(v, n, p), G = Y.t() * Y, W = Y.t() * V; Mx O(p, p);
        // V - Y O, O skew (p = 2)
        if (met == 2) { double w = (W(0, 1) - W(1, 0)) / (G(0, 0) + G(1, 1)); O(0, 1) = w; O(1, 0) = -w; } else O = skew(inv(G) * W);
        return flat(V - Y * O); };
    m.ip = [n, p, met](const Mx &y, const Mx &a, const Mx &b) { Mx Y = rect(y, n, p), A = rect(a, n, p), B = rect(b, n, p); if (met == 2) return dot(a, b); if (met == 1) return tr(Y.t() * Y * (A.t() * B)); return 2 * (tr(Y.t() * A * Y.t() * B) + tr(Y.t() * Y * A.t() * B)); };
    m.gw = [n, p, x](const Mx &eta) { Mx S = symm(Mx::sym("g", n, n)), T = symm(Mx::sym("w", n, n)); return std::make_pair(flat(2. * (S * x)), flat(2. * (T * x) + 2. * (S * rect(eta, n, p)))); };
    defaults(m); return m;
}
// projective retraction for rank one with a rationally parametrised best approximation:
// x x' + eta x' + x eta' = l1 q q' + l2 q_ q_'  with q = (cos, sin) relative to x/|x|, q_perp direction w
static void sfrqretr(const std::string &what, int n, int set)
{
    int b = sym_choice("base", 3); MD m = mkSFRQ(n, 1, set, true, b); double nx = std::sqrt(dot(m.x, m.x)); Mx w = flat(fixedrot(n, 0).col(1)); w = w - (dot(w, m.x) / dot(m.x, m.x)) * m.x; w = (1 / std::sqrt(dot(w, w))) * w; Mx q0 = (1 / nx) * m.x;
    double t = sym_real("t", -.9, .9), l1 = sym_pos("l"), th = t, dd = 1 + th * th, c = (1 - th * th) / dd, sn = 2 * th / dd; if (what == "retr0") { l1 = nx * nx; c = 1; sn = 0; }
    // zero (q_perp, q_perp) entry: l1 sn^2 + l2 c^2 = 0
    double l2 = -l1 * sn * sn / (c * c); double a = (l1 + l2 - nx * nx) / (2 * nx * nx), k = (l1 - l2) * sn * c / nx; Mx eta = a * m.x + k * w; if (what == "retr0") eta = 0. * m.x;
    double D[2] = {l2, l1};
    // the code works in the basis of the QR factorisation of [x, y_perp]; witnesses for every sign convention
    for (int sg = 0; sg < 4; sg++) { double s0 = sg & 1 ? -1 : 1, s1 = sg & 2 ? -1 : 1; double Q[4] = {-sn * s0, c * s1, c * s0, sn * s1}; sym_register_eig(2, Q, D); }
    Element X = m.X(), E = rep(m, X, eta), Y = m.X(); Mx e0 = iv(E); m.M->Retraction(X, E, &Y); Mx y = m.ptv(Y);
    if (what == "retr0") { eqM(y, m.x, "centering"); return; }
    Mx Q = c * q0 + sn * w; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) sym_eq(y(i) * y(j), l1 * Q(i) * Q(j), "best_approximation[%d,%d]", i, j);
    sym_le(0, dot(y, m.x), "closest_representative"); eqM(iv(E), e0, "step_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged");
}
// ---------------------------------------------------------------- fixed rank, embedded
struct FreBase { Mx U, D, V, Up, Vp; };
static FreBase frebase(int mm, int n, int r, int b)
{
    FreBase f; Mx A = fixedrot(mm, b < 0 ? 1 : b), B = fixedrot(n, b < 0 ? 2 : b + 1); f.U = A.col(0, r); f.V = B.col(0, r); f.Up = A.col(r, mm - r); f.Vp = B.col(r, n - r);
    f.D = r == 1 ? (b == 1 ? 3. : b == 2 ? -2. : 1.) * Mx::eye(1) : b == 0 ? Mx::lit(2, 2, {2, 0, 0, 1}) : Mx::lit(2, 2, {1, 2, -.5, 3}); if (b < 0) { f.D(0, 0) = sym_real("bt"); sym_assume_ne(r == 1 ? f.D(0, 0) : f.D(0, 0) * f.D(1, 1) - f.D(0, 1) * f.D(1, 0), 0); }
    return f;
}
static MD mkFRE(int mm, int n, int r, int b)
{
    MD m; auto S = std::make_shared<FixedRankE>(mm, n, r); m.M = S; FreBase f = frebase(mm, n, r, b); Mx x = f.U * f.D * f.V.t(); m.x = flat(x); Mx Di = inv(f.D);
    auto withf = [mm, n](const Mx &U, const Mx &D, const Mx &V) { Element e = toE(U * D * V.t()); e.AddToFields("U", toE(U)); e.AddToFields("D", toE(D)); e.AddToFields("V", toE(V)); return e; };
    m.pt = [f, withf](const Mx &) { return withf(f.U, f.D, f.V); };
    auto params = [f, Di, mm, n](const Mx &v, Mx &dU, Mx &dD, Mx &dV) { Mx W = rect(v, mm, n), WV = W * f.V; dD = f.U.t() * WV; dU = (WV - f.U * dD) * Di; dV = (W.t() * f.U - f.V * dD.t()) * Di.t(); };
    m.vec = [f, params, mm, n](const Mx &v) { Mx dU, dD, dV; params(v, dU, dD, dV); Element e = toE(rect(v, mm, n)); e.AddToFields("dU", toE(dU)); e.AddToFields("dD", toE(dD)); e.AddToFields("dV", toE(dV)); return e; };
    m.curve = [f, params, withf](const Mx &eta, double t) { Mx dU, dD, dV; params(eta, dU, dD, dV); return withf(f.U + t * dU, f.D + t * dD, f.V + t * dV); };
    for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) m.B.push_back(flat(f.U * unitm(r, r, i, j) * f.V.t()));
    for (int i = 0; i < mm - r; i++) for (int j = 0; j < r; j++) m.B.push_back(flat(f.Up * unitm(mm - r, r, i, j) * f.V.t()));
    for (int i = 0; i < n - r; i++) for (int j = 0; j < r; j++) m.B.push_back(flat(f.U * unitm(n - r, r, i, j).t() * f.Vp.t()));
    Mx x0 = m.x; std::vector<Mx> Bn; for (int i = 0; i < mm - r; i++) for (int j = 0; j < n - r; j++) Bn.push_back(flat(f.Up * unitm(mm - r, n - r, i, j) * f.Vp.t()));
    m.tang = [Bn](const Mx &, const Mx &e, const char *l) { for (auto &b : Bn) sym_eq(dot(b, e), 0, "%s", l); };
    m.onman = [mm, n, r](const Mx &y, const char *l) { Mx Y = rect(y, mm, n); if (r == 1) for (int i = 1; i < mm; i++) for (int j = 1; j < n; j++) sym_eq(Y(0, 0) * Y(i, j), Y(i, 0) * Y(0, j), "%s", l); };
    defaults(m); return m;
}
static void freconsistent(const Element &X, const Element &e, const char *l)     // the stored factors describe the stored matrix
{
    Element EU = X.Field("U"), ED = X.Field("D"), EV = X.Field("V"), EdU = e.Field("dU"), EdD = e.Field("dD"), EdV = e.Field("dV");
    Mx U = toM(EU), D = toM(ED), V = toM(EV), dU = toM(EdU), dD = toM(EdD), dV = toM(EdV); eqM(flat(dU * D * V.t() + U * dD * V.t() + U * D * dV.t()), iv(e), sym_fmt("%s_factors", l).c_str());
    Mx a = U.t() * dU, b = V.t() * dV; for (double v : a.a) sym_eq(v, 0, "%s_left_gauge", l); for (double v : b.a) sym_eq(v, 0, "%s_right_gauge", l);
}
static void frelaw(const MD &m)
{
    Element X = m.X(), V = toE(Mx::sym("v", 1)); Mx v = Mx::sym("v", m.x.a.size()); Element W = m.E(); W = m.vec(v); Element P = m.E(); m.M->ExtrProjection(X, W, &P); freconsistent(X, P, "projection");
    Element U = m.vec(m.comb(Mx::sym("c", m.d()))), S = m.E(), T = m.E(), L = m.E(); double s = sym_real("s"), t = sym_real("t"); m.M->ScalarTimesVector(X, s, U, &S); freconsistent(X, S, "scaling");
    m.M->ScalarVectorAddVector(X, s, U, P, &T); freconsistent(X, T, "scaled_addition"); m.M->VectorLinearCombination(X, s, U, t, P, &L); freconsistent(X, L, "linear_combination"); m.M->VectorLinearCombination(X, s, U, t, P, &P); freconsistent(X, P, "linear_combination_in_place"); freconsistent(X, U, "input");
    DummyProb Q; Q.SetUseHess(true); Element G = m.vec(Mx::sym("g", m.x.a.size())), R = m.E(); m.M->EucGradToGrad(X, G, &Q, &R); freconsistent(X, R, "gradient"); Element Z = m.vec(Mx::sym("w", m.x.a.size())), H = m.E(); m.M->EucHvToHv(X, U, Z, &Q, &H); freconsistent(X, H, "hessian_action");
}
static void freretr(const MD &m, int k, int r)
{
    Step s = step(m, k); Element EU = s.Y.Field("U"), ED = s.Y.Field("D"), EV = s.Y.Field("V"); Mx U = toM(EU), D = toM(ED), V = toM(EV); eqM(flat(U * D * V.t()), s.y, "factors");
    Mx a = U.t() * U, b = V.t() * V; for (int i = 0; i < r; i++) for (int j = 0; j <= i; j++) { sym_eq(a(i, j), i == j, "left_orthonormal"); sym_eq(b(i, j), i == j, "right_orthonormal"); }
}
static void frevt(const MD &m, int k)       // transport by projection at the new point
{
    sym_div0_assume(true); Step s = step(m, k); Mx u = m.comb(Mx::sym("c", m.d())); Element U = m.vec(u), T = m.M->GetEMPTY(); m.M->VectorTransport(s.X, s.E, s.Y, U, &T); freconsistent(s.Y, T, "transport");
    Element EU = s.Y.Field("U"), EV = s.Y.Field("V"); Mx Uy = toM(EU), Vy = toM(EV); int mm = Uy.r, n = Vy.r; Mx W = rect(u - iv(T), mm, n), a = Uy.t() * W, b = W * Vy; for (double v : a.a) sym_eq(v, 0, "projection_left"); for (double v : b.a) sym_eq(v, 0, "projection_right"); eqM(iv(U), u, "input_unchanged");
}
static void frediffs(const MD &m, int k)
{
    Step s = step(m, k); sym_assume_ne(dot(s.eta, s.eta), 0); sym_div0_assume(k != 0); double al = sym_pos("al"); Element XI = m.vec(al * s.eta), D = m.M->GetEMPTY(); m.M->DiffRetraction(s.X, s.E, s.Y, XI, &D, true); freconsistent(s.Y, D, "derivative");
    std::vector<double> dd = sym_ddt([&](double t) { Element X1 = m.X(), Y1 = m.X(), T = m.vec((1 + al * t) * s.eta); m.M->Retraction(X1, T, &Y1); return m.ptv(Y1).a; }); Mx R(dd.size()); R.a = dd; eqM(iv(D), R, "is_derivative");
}
// ---------------------------------------------------------------- fixed rank, two factors
static MD mkQ2F(int mm, int n, int r, bool intr, int b)
{
    MD m; auto S = std::make_shared<FixedRankQ2F>(mm, n, r); m.M = S; S->SetIsIntrApproach(intr); m.flat = intr; Mx G = sfrqX(mm, r, b), H = sfrqX(n, r, b < 0 ? 1 : (b + 1) % 3); int ng = mm * r, nh = n * r;
    auto cat = [](const Mx &a, const Mx &b) { Mx v((int)(a.a.size() + b.a.size())); std::copy(b.a.begin(), b.a.end(), std::copy(a.a.begin(), a.a.end(), v.a.begin())); return v; };
    auto gp = [mm, r, ng](const Mx &v) { Mx g(mm, r); std::copy(v.a.begin(), v.a.begin() + ng, g.a.begin()); return g; }; auto hp = [n, r, ng](const Mx &v) { Mx h(n, r); std::copy(v.a.begin() + ng, v.a.end(), h.a.begin()); return h; };
    Element shape = S->GetEMPTYEXTR(); m.pt = [shape](const Mx &v) { Element e = shape; realdp *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < v.a.size(); i++) p[i] = v.a[i]; return e; };
    m.x = cat(G, H); Mx GG = G.t() * G, HH = H.t() * H, HHi = inv(HH), GGi = inv(GG);
    // horizontal: W = G A (H'H)^-1.. : W = G M (H'H) , Z = H M' (G'G) up to scaling, plus perpendicular parts
    for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) { Mx M = unitm(r, r, i, j); m.B.push_back(cat(G * M, H * M.t())); }
    auto perp = [](const Mx &X, int i, int r, const Mx &Gi) { Mx out(X.r, r); return out; }; (void)perp;
    auto addperp = [&](const Mx &X, const Mx &Xi, bool g) {
        int N = X.r; std::vector<Mx> q; if (r == 1) for (int i = 1; i < N; i++) q.push_back(unitm(N, 1, i, 0)); else for (int i = r; i < N; i++) q.push_back(fixedrot(N, g ? (b < 0 ? 1 : b) : (b < 0 ? 1 : (b + 1) % 3)).col(i));
        for (auto &v : q) for (int j = 0; j < r; j++) { Mx E(N, r); for (int i = 0; i < N; i++) E(i, j) = v(i); E = E - X * (Xi * (X.t() * E)); m.B.push_back(g ? cat(E, Mx(n, r)) : cat(Mx(mm, r), E)); } };
    addperp(G, GGi, true); addperp(H, HHi, false);
    m.tang = [gp, hp, r](const Mx &y, const Mx &e, const char *l) { Mx G = gp(y), H = hp(y), W = gp(e), Z = hp(e); Mx a = inv(G.t() * G) * (G.t() * W), b = inv(H.t() * H) * (H.t() * Z); for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) sym_eq(a(i, j), b(j, i), "%s", l); };
    m.onman = [](const Mx &, const char *) {};
    m.hor = [gp, hp, cat](const Mx &y, const Mx &v) { Mx G = gp(y), H = hp(y), W = gp(v), Z = hp(v); Mx a = inv(G.t() * G) * (G.t() * W), b = inv(H.t() * H) * (H.t() * Z), L = .5 * (b.t() - a); return cat(W + G * L, Z - H * L.t()); };
    m.ip = [gp, hp](const Mx &y, const Mx &a, const Mx &b) { Mx G = gp(y), H = hp(y), A = gp(a) * H.t() + G * hp(a).t(), B = gp(b) * H.t() + G * hp(b).t(); return dot(A, B); };
    m.gw = [gp, hp, cat, G, H, mm, n](const Mx &eta) { Mx F = Mx::sym("g", mm, n), T = Mx::sym("w", mm, n), dG = gp(eta), dH = hp(eta); return std::make_pair(cat(F * H, F.t() * G), cat(T * H + F * dH, T.t() * G + F.t() * dG)); };
    defaults(m); return m;
}
// retraction of the two-factor quotient by projection of the point plus the tangent matrix onto matrices of rank r
static void projretr(const MD &m, int mm, int n, int r)
{
    sym_div0_assume(true); Element X = m.X(), Y = m.X(); Mx eta = dirk(m, "e", 1); Element E = rep(m, X, eta); Mx e0 = iv(E); ((FixedRankQ2F *)m.M.get())->ProjRetraction(X, E, &Y); Mx y = m.ptv(Y);
    auto gp = [mm, r](const Mx &v) { Mx g(mm, r); std::copy(v.a.begin(), v.a.begin() + mm * r, g.a.begin()); return g; }; auto hp = [n, r, mm](const Mx &v) { Mx h(n, r); std::copy(v.a.begin() + mm * r, v.a.end(), h.a.begin()); return h; };
    Mx G = gp(m.x), H = hp(m.x), A = G * H.t() + gp(eta) * H.t() + G * hp(eta).t(), U = gp(y), V = hp(y), Z = U * V.t(), D = A - Z;
    eqM(D.t() * U, Mx(n, r), "left_residual"); eqM(D * V, Mx(mm, r), "right_residual"); eqM(U.t() * U, V.t() * V, "balanced"); if (r == 1) sym_le(dot(flat(D), flat(D)), dot(flat(Z), flat(Z)), "dominant");
    eqM(iv(E), e0, "step_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged");
    for (int f = 0; f < 2; f++) { Element F = Y.GetElement(f); if (F.FieldsExist("_L")) { Mx L = rect(iv(F.Field("_L")), r, r), P = f ? V : U; eqM(L * L.t(), P.t() * P, "kept_factor"); } }
}
namespace { struct Init
{
    Init()
    {
        for (int set = 1; set <= 4; set++) for (int n = 1; n <= 3; n++)
        {
            std::string nm = sym_fmt("SPD%ds%d", n, set); Mk mk = [=](int b) { return mkSPD(n, set, b); }; int nb = n == 3 ? 3 : -1; int t3 = n == 3;
            if (set == 1) reg("rand", nm, mk, 1, [=](const MD &m0) { MD m = m0; m.onman = [n](const Mx &y, const char *l) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym_eq(y(i + n * j), y(j + n * i), "%s", l); for (int i = 0; i < n; i++) sym_le(0, y(i + n * i), "%s", l); if (n == 2) sym_le(0, y(0) * y(3) - y(1) * y(2), "%s", l); }; law_rand(m); }, t3);
            reg("proj", nm, mk, nb, law_proj, t3); reg("intr", nm, mk, nb, law_intr, t3); reg("metr", nm, mk, nb, law_metric, t3);
            reg("grad", nm, mk, nb, [](const MD &m) { law_grad(m); }, t3); reg("hess", nm, mk, n == 1 ? -1 : 3, [](const MD &m) { law_hess(m); }, t3);
            if (n <= 2) reg("ope", nm, mk, 1, law_ope, n == 1);
            if (set <= 2)
            {
                if (n <= 2)
                {
                    reg("retr", nm, mk, 3, [=](const MD &m) { law_retr(m, n == 1 ? 1 : 2, 0); }); reg("retr0", nm, mk, 3, law_retr_zero); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); });
                    reg("reuse", nm, mk, 2, [](const MD &m) { law_reuse(m, 1); });
                    reg("vt", nm, mk, 2, [=](const MD &m) { law_vt(m, 1, true, true); }); reg("vt0", nm, mk, 3, law_vt_id);
                    reg("diff", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, false); }); reg("diffs", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, true); });
                    reg("opetr", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, false); });
                }
                if (n <= 2) sym_register_case("dist_" + nm, [=]() { spddist(n, set); sym_reach("end"); });
            }
            else if (n <= 2) { reg("retr0", nm, mk, 3, law_retr_zero); for (std::string w : {"retr", "vt"}) sym_register_case(w + "_" + nm, [=]() { spdexp(w, n, set); sym_reach("end"); }); }
        }
        for (int intr = 0; intr < 2; intr++)
        {
            std::string nm = sym_fmt("Tx%s", intr ? "i" : "x"); Mk mk = [=](int b) { return mkTx(intr, b); };
            reg("rand", nm, mk, 1, law_rand); reg("proj", nm, mk, 3, law_proj); reg("metr", nm, mk, 3, law_metric); reg("retr", nm, mk, 3, [](const MD &m) { law_retr(m, 1, 0, false); }); reg("retr0", nm, mk, 3, law_retr_zero);
            reg("vt", nm, mk, 2, [=](const MD &m) { sym_div0_assume(true); law_vt(m, 1, true, true); }); reg("vt0", nm, mk, 3, law_vt_id); reg("diffs", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, true); });
            reg("grad", nm, mk, 3, [](const MD &m) { law_grad(m); }); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); });
        }
        for (int set = 1; set <= 6; set++) for (int sh = 0; sh < 4; sh++) for (int intr = 0; intr < 2; intr++)
        {
            static const int N[] = {2, 2, 3, 3}, P[] = {1, 2, 2, 1}; int n = N[sh], p = P[sh]; std::string nm = sym_fmt("SFR%d%ds%d%s", n, p, set, intr ? "i" : "x"); Mk mk = [=](int b) { return mkSFRQ(n, p, set, intr, b); }; bool proj = set > 3; int t = sh == 3;
            if (set == 1 && !intr && sh < 2) reg("rand", nm, mk, 1, law_rand);
            if (!proj && !intr) { reg("proj", nm, mk, 3, law_proj, t); reg("intr", nm, mk, 3, law_intr, t); reg("grad", nm, mk, 3, [](const MD &m) { law_grad(m); }, t); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); }, t || (n == 3)); }
            if (!proj) reg("metr", nm, mk, 3, law_metric, t);
            if (!intr) { reg("retr", nm, mk, 3, [=](const MD &m) { law_retr(m, 2, 0); Step s = step(m, 2); eqM(s.y, m.x + s.eta, "sum"); }, t); reg("retr0", nm, mk, 3, law_retr_zero, t); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); }, t); reg("diff", nm, mk, 12, [=](const MD &m) { sym_div0_assume(true); law_diff(m, 1, false); }, t); reg("diffs", nm, mk, 12, [=](const MD &m) { sym_div0_assume(true); law_diff(m, 1, true); }, t); if (p == 1) reg("reuse", nm, mk, 2, [](const MD &m) { sym_div0_assume(true); law_reuse(m, 1); }, t); if (!proj) reg("vt", nm, mk, 2, [=](const MD &m) { sym_div0_assume(true); law_vt(m, 1, false, false); }, t); }
            if (intr && p == 1 && !proj) for (std::string w : {"retr", "retr0"}) sym_register_case(w + "_" + nm, [=]() { sfrqretr(w, n, set); sym_reach("end"); });
            if (proj && (!intr || n == 2 && p == 1)) reg("vt", nm, mk, 2, [=](const MD &m) { sym_div0_assume(true); law_vt(m, 1, false, false); }, t);
            reg("ope", nm, mk, 1, law_ope, t || set > 1);
            if (!proj && n == 2 && p == 1 && intr) { reg("lock", nm, mk, 2, [=](const MD &m) { law_lock(m, 1); }, set != 2); reg("lockvt", nm, mk, 2, [=](const MD &m) { law_lockvt(m, 1, true); }, set != 2); reg("opetrl", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, true); }, set != 2); reg("opetr", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, false); }, set != 2); }
        }
        for (int sh = 0; sh < 4; sh++)
        {
            static const int Ms[] = {2, 3, 2, 3}, Ns[] = {2, 2, 2, 3}, Rs[] = {1, 1, 2, 2}; int mm = Ms[sh], n = Ns[sh], r = Rs[sh]; std::string nm = sym_fmt("FRE%d%d%d", mm, n, r); Mk mk = [=](int b) { return mkFRE(mm, n, r, b); }; int t = sh == 3;
            reg("rand", nm, mk, 1, [=](const MD &m) { law_rand(m); Element R = m.M->RandominManifold(); Mx U = rect(iv(R.Field("U")), mm, r), D = rect(iv(R.Field("D")), r, r), V = rect(iv(R.Field("V")), n, r), u = U.t() * U, v = V.t() * V; eqM(flat(U * D * V.t()), m.ptv(R), "factors"); for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) { sym_eq(u(i, j), i == j, "left_factor"); sym_eq(v(i, j), i == j, "right_factor"); } }, r > 1);
            reg("proj", nm, mk, 3, law_proj, t); reg("metr", nm, mk, 3, law_metric, t); reg("grad", nm, mk, 3, [](const MD &m) { law_grad(m); }, t); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); }, t); reg("projf", nm, mk, 3, frelaw, t);
            if (r < n) reg("intrn", nm, mk, 3, [=](const MD &m) { FreBase f = frebase(mm, n, r, 0); std::vector<Mx> Bn; Mx X = rect(m.x, mm, n); for (int b = 0; b < 3; b++) { FreBase g = frebase(mm, n, r, b); Mx d = flat(g.U * g.D * g.V.t()) - m.x; if (dot(d, d) == 0) f = g; } for (int i = 0; i < mm - r; i++) for (int j = 0; j < n - r; j++) Bn.push_back(flat(f.Up * unitm(mm - r, n - r, i, j) * f.Vp.t())); law_normal(m, Bn); }, t);
            if (mm * n <= 6) reg("ope", nm, mk, 2, [=](const MD &m) { Element X = m.X(); int d = mm * n; Mx h = Mx::sym("h", d, d), c = m.comb(Mx::sym("c", m.d())); Element H = toE(h), U = m.vec(c), R = m.E(), P = m.E(), W = m.vec(h * c); m.M->LinearOPEEta(X, H, U, &R); m.M->ExtrProjection(X, W, &P); eqM(m.vecv(R), m.vecv(P), "projected_action"); freconsistent(X, R, "action"); eqM(m.vecv(U), c, "input_unchanged"); eqM(iv(H), flat(h), "operator_unchanged"); m.M->LinearOPEEta(X, H, U, &U); eqM(m.vecv(U), m.vecv(P), "in_place"); freconsistent(X, U, "action_in_place"); }, r > 1);
            if (r == 1) { reg("retr", nm, mk, 3, [](const MD &m) { law_retr(m, 2, 0); }); reg("retr0", nm, mk, 3, law_retr_zero); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); }); reg("retrf", nm, mk, 3, [=](const MD &m) { freretr(m, 2, r); }); reg("vt", nm, mk, 3, [=](const MD &m) { frevt(m, 1); }); reg("diffs", nm, mk, 12, [=](const MD &m) { frediffs(m, 1); }); reg("diffz", nm, mk, 12, [=](const MD &m) { frediffs(m, 0); }); reg("lock", nm, mk, 12, [=](const MD &m) { law_lock(m, 1); }); }
        }
        for (int sh = 0; sh < 3; sh++) for (int intr = 0; intr < 2; intr++)
        {
            static const int Ms[] = {2, 3, 3}, Ns[] = {2, 2, 3}, Rs[] = {1, 1, 2}; int mm = Ms[sh], n = Ns[sh], r = Rs[sh]; std::string nm = sym_fmt("F2F%d%d%d%s", mm, n, r, intr ? "i" : "x"); Mk mk = [=](int b) { return mkQ2F(mm, n, r, intr, b); }; int t = sh == 2;
            if (!intr) { reg("rand", nm, mk, 1, law_rand, t); reg("proj", nm, mk, 3, law_proj, t); reg("intr", nm, mk, 3, law_intr, t); reg("grad", nm, mk, 3, [](const MD &m) { law_grad(m); }, t); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); }, t); }
            reg("metr", nm, mk, 3, law_metric, t);
            reg("retr", nm, mk, 3, [](const MD &m) { law_retr(m, 1, 0); Step s = step(m, 1); eqM(s.y, m.x + s.eta, "sum"); }, t); reg("retr0", nm, mk, 3, law_retr_zero, t); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); }, t); reg("reuse", nm, mk, 2, [](const MD &m) { law_reuse(m, 1); }, t);
            if (r == 1) reg("retrp", nm, mk, 2, [=](const MD &m) { projretr(m, mm, n, r); }, t);
            reg("vt", nm, mk, 2, [=](const MD &m) { law_vt(m, 1, true, true); }, t); reg("diff", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, false); }, t); reg("diffs", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, true); }, t);
            reg("lock", nm, mk, 2, [=](const MD &m) { law_lock(m, 1); }, t); if (intr) { reg("ope", nm, mk, 1, law_ope, t); reg("opetr", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, false); }, t); }
        }
    }
} init2; }
