// Complex manifolds. A complex r x c matrix is held as the real 2r x 2c block matrix [[Re, -Im], [Im, Re]], so that the
// transpose is the conjugate transpose and traces count twice; flat vectors interleave real and imaginary parts.
#include "mkman.h"
#include "Manifolds/CStiefel.h"
#include "Manifolds/CSymFixedRankQ.h"
#include "Manifolds/CFixedRankQ2F.h"
extern void sym_register_svdc(int m, int n, const double *U, const double *S, const double *V);
extern void sym_register_eigc(int n, const double *Q, const double *D);
static Mx cblk(const Mx &R, const Mx &I) { int r = R.r, c = R.c; Mx m(2 * r, 2 * c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) { m(i, j) = m(r + i, c + j) = R(i, j); m(r + i, j) = I(i, j); m(i, c + j) = -I(i, j); } return m; }
static Mx cre(const Mx &R) { return cblk(R, Mx(R.r, R.c)); }
static Mx cim(const Mx &I) { return cblk(Mx(I.r, I.c), I); }
static Mx ceye(int n) { return cre(Mx::eye(n)); }
static Mx CR(const Mx &v, int r, int c, int off = 0) { Mx R(r, c), I(r, c); for (int k = 0; k < r * c; k++) { R.a[k] = v.a[2 * (off + k)]; I.a[k] = v.a[2 * (off + k) + 1]; } return cblk(R, I); }
static Mx CF(const Mx &M) { int r = M.r / 2, c = M.c / 2; Mx v(2 * r * c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) { v(2 * (i + j * r)) = M(i, j); v(2 * (i + j * r) + 1) = M(r + i, j); } return v; }
static Mx ccol(const Mx &M, int j0, int k) { int r = M.r / 2, c = M.c / 2; return cblk(M.sub(0, r, j0, k), M.sub(r, r, j0, k)); (void)c; }
static double ctr(const Mx &M) { return .5 * tr(M); }
static double cdot(const Mx &a, const Mx &b) { return .5 * dot(a, b); }     // Re tr(a^H b)
static Mx csym(const char *nm, int r, int c) { return cblk(Mx::sym(sym_fmt("%sr", nm).c_str(), r, c), Mx::sym(sym_fmt("%si", nm).c_str(), r, c)); }
static Mx hinv(const Mx &G)                      // inverse of a Hermitian matrix of order one or two
{
    int p = G.r / 2; if (p == 1) return (1 / G(0, 0)) * ceye(1);
    double d = G(0, 0) * G(1, 1) - G(0, 1) * G(0, 1) - G(2, 1) * G(2, 1); Mx R(2, 2), I(2, 2); R(0, 0) = G(1, 1) / d; R(1, 1) = G(0, 0) / d; R(0, 1) = R(1, 0) = -G(0, 1) / d; I(0, 1) = -G(2, 1) / d; I(1, 0) = G(2, 1) / d; return cblk(R, I);
}
static Mx phases(int n, int k)
{
    Mx C(n, n), S(n, n); static const double h[] = {.5, -2, .25, 3, -1.5, .75}; for (int i = 0; i < n; i++) { double t = h[(k + 2 * i) % 6], d = 1 + t * t; C(i, i) = (1 - t * t) / d; S(i, i) = 2 * t / d; } return cblk(C, S);
}
static Mx unitary(int n, int k) { if (k == 0) return ceye(n); return phases(n, k) * cre(fixedrot(n, k)) * phases(n, k + 1) * cre(fixedrot(n, k + 1)); }
static Mx cunit(int r, int c, int i, int j, bool im) { return im ? cim(unitm(r, c, i, j)) : cre(unitm(r, c, i, j)); }
static std::vector<Mx> hermbasis(int p, bool skew)
{
    std::vector<Mx> B; for (int i = 0; i < p; i++) for (int j = 0; j <= i; j++) { Mx S = i == j ? unitm(p, p, i, i) : unitm(p, p, i, j) + unitm(p, p, j, i), K = unitm(p, p, i, j) - unitm(p, p, j, i); if (skew) { B.push_back(cim(S)); if (i != j) B.push_back(cre(K)); } else { B.push_back(cre(S)); if (i != j) B.push_back(cim(K)); } } return B;
}
static std::vector<Mx> genbasis(int r, int c) { std::vector<Mx> B; for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) for (int k = 0; k < 2; k++) B.push_back(cunit(r, c, i, j, k)); return B; }
static void iszero(const Mx &M, const char *l) { Mx v = CF(M); for (double d : v.a) sym_eq(d, 0, "%s", l); }
static void shapept(MD &m) { Element shape = m.M->GetEMPTYEXTR(); m.pt = [shape](const Mx &v) { Element e = shape; e.NewMemoryOnWrite(); realdp *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < v.a.size(); i++) p[i] = v.a[i]; return e; }; }
// ---------------------------------------------------------------- complex Stiefel
static MD mkCSt(int n, int p, int set, bool canon, int b)
{
    MD m; auto S = std::make_shared<CStiefel>(n, p); m.M = S;
    switch (set) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; case 4: S->ChooseParamsSet4(); break; }
    if (canon) S->metric = CSTIE_CANONICAL;
    shapept(m); Mx Q = unitary(n, b), x = ccol(Q, 0, p); m.x = CF(x);
    for (auto &s : hermbasis(p, true)) m.B.push_back(CF(x * s));
    if (n > p) { Mx xp = ccol(Q, p, n - p); for (auto &k : genbasis(n - p, p)) m.B.push_back(CF(xp * k)); }
    m.onman = [n, p](const Mx &y, const char *l) { Mx Y = CR(y, n, p); iszero(Y.t() * Y - ceye(p), l); };
    m.tang = [n, p](const Mx &y, const Mx &e, const char *l) { Mx W = CR(y, n, p).t() * CR(e, n, p); iszero(W + W.t(), l); };
    if (canon) m.ip = [n, p](const Mx &y, const Mx &a, const Mx &b) { Mx Y = CR(y, n, p); return dot(a, b) - .5 * cdot(Y.t() * CR(a, n, p), Y.t() * CR(b, n, p)); };
    defaults(m); return m;
}
// a step with a known singular value decomposition of x + eta: (I + om J) has equal singular values for skew-Hermitian J with J^2 = -I
static Mx cpolarstep(int n, int p, const Mx &Q, double om, double k, int vi, int ji)
{
    Mx x = ccol(Q, 0, p), J = ji == 0 ? cim(Mx::eye(p)) : unitary(p, ji) * cim(p == 1 ? Mx::eye(1) : Mx::lit(2, 2, {1, 0, 0, -1})) * unitary(p, ji).t(), V = unitary(p, vi), e = om * (x * J);
    if (n > p) e = e + k * (ccol(Q, p, 1) * ccol(V, 0, 1).t());
    Mx S(p); for (int j = 0; j < p; j++) S(j) = std::sqrt(1 + om * om + (j == 0 && n > p ? k * k : 0));
    Mx W = CF((x + e) * V), Vf = CF(V); for (int j = 0; j < p; j++) for (int i = 0; i < 2 * n; i++) W(i + 2 * n * j) = W(i + 2 * n * j) / S(j);
    sym_register_svdc(n, p, W.a.data(), S.a.data(), Vf.a.data()); return CF(e);
}
static void cpolar(const std::string &what, int n, int p, int set)
{
    int b = sym_choice("base", 3), vi = p == 2 ? sym_choice("vdir", 3) : 0, ji = p == 2 ? sym_choice("rot", 2) : 0; MD m = mkCSt(n, p, set, false, b); Mx Q = unitary(n, b); double om = sym_real("om"), k = n > p ? sym_real("k") : 0;
    if (what == "retrd")
    {
        Mx dir = cpolarstep(n, p, Q, om, k, vi, ji);
        std::vector<double> dd = sym_ddt([&](double t) { cpolarstep(n, p, Q, t * om, t * k, vi, ji); Element X = m.X(), Y = m.X(), E = rep(m, X, t * dir); m.M->Retraction(X, E, &Y); return m.ptv(Y).a; });
        Mx D(dd.size()); D.a = dd; eqM(D, dir, "local_rigidity"); return;
    }
    Step s; s.X = m.X(); s.eta = cpolarstep(n, p, Q, om, k, vi, ji); s.E = rep(m, s.X, s.eta); s.Y = m.X(); Mx e0 = iv(s.E); m.M->Retraction(s.X, s.E, &s.Y); s.y = m.ptv(s.Y);
    if (what == "retr") { m.onman(s.y, "on_manifold"); Mx G = CR(s.y, n, p).t() * CR(m.x + s.eta, n, p); iszero(G - G.t(), "polar_factor_hermitian"); eqM(iv(s.E), e0, "step_unchanged"); eqM(m.ptv(s.X), m.x, "point_unchanged"); }
    if (what == "inv") { Element X2 = m.X(), Y2 = m.pt(s.y), R = m.E(); m.M->InvRetraction(X2, Y2, &R); eqM(m.vecv(R), s.eta, "inverse_retraction"); }
    if (what == "vt")
    {
        Element U = rep(m, s.X, m.comb(Mx::sym("c", m.d()))), T = m.M->GetEMPTY(), R = m.M->GetEMPTY(); Mx u0 = iv(U); m.M->VectorTransport(s.X, s.E, s.Y, U, &T); m.tang(s.y, unrep(m, s.Y, T), "tangent");
        if (set == 3) { sym_eq(m.M->Metric(s.Y, T, T), m.M->Metric(s.X, U, U), "isometric"); m.M->InverseVectorTransport(s.X, s.E, s.Y, T, &R); eqM(iv(R), u0, "inverse"); }
    }
    if (what == "diffs")
    {
        double al = sym_pos("al"); sym_assume_ne(dot(s.eta, s.eta), 0); Element XI = rep(m, s.X, al * s.eta), D = m.M->GetEMPTY(); m.M->DiffRetraction(s.X, s.E, s.Y, XI, &D, true); Mx d = unrep(m, s.Y, D);
        std::vector<double> dd = sym_ddt([&](double t) { double q = 1 + al * t; cpolarstep(n, p, Q, q * om, q * k, vi, ji); Element X = m.X(), Y = m.X(), E = rep(m, X, q * s.eta); m.M->Retraction(X, E, &Y); return m.ptv(Y).a; });
        Mx R(dd.size()); R.a = dd; eqM(d, R, "is_derivative");
    }
    if (what == "lock")
    {
        m.M->SetHasHHR(true); sym_div0_assume(true); Element D = m.M->GetEMPTY(), T = m.M->GetEMPTY(); Element XI = rep(m, s.X, 2. * s.eta); m.M->DiffRetraction(s.X, s.E, s.Y, XI, &D, true); double be = m.M->Beta(s.X, s.E);
        sym_eq(be * be * m.M->Metric(s.Y, D, D), 4 * m.M->Metric(s.X, s.E, s.E), "beta"); m.M->VectorTransport(s.X, s.E, s.Y, s.E, &T); eqM(iv(T), (.5 * be) * iv(D), "locking");
    }
}
// ---------------------------------------------------------------- Hermitian positive semidefinite of fixed rank, quotient by the unitary group
static Mx cfacX(int n, int p, int b)
{
    Mx U = unitary(n, b); Mx R = p == 1 ? cre((b == 0 ? 1. : b == 1 ? 3. : -2.) * Mx::eye(1)) : b == 0 ? ceye(2) : b == 1 ? cblk(Mx::lit(2, 2, {2, -1, 0, .5}), Mx::lit(2, 2, {0, 1, 0, 0})) : cblk(Mx::lit(2, 2, {-1, .5, 0, 3}), Mx::lit(2, 2, {0, -2, 0, 0}));
    return ccol(U, 0, p) * R;
}
static std::vector<Mx> cperp(int n, int p, int b) { std::vector<Mx> B; if (n > p) { Mx q = ccol(unitary(n, b), p, n - p); for (auto &k : genbasis(n - p, p)) B.push_back(q * k); } return B; }
static MD mkCSF(int n, int p, int set, bool intr, int b)
{
    MD m; auto S = std::make_shared<CSymFixedRankQ>(n, p); m.M = S; switch (set) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; case 4: S->ChooseParamsSet4(); break; }
    S->SetIsIntrApproach(intr); m.flat = intr; bool hgz = set % 2 == 0; shapept(m); Mx x = cfacX(n, p, b); m.x = CF(x);
    for (auto &s : hermbasis(p, false)) m.B.push_back(CF(x * s));
    for (auto &k : cperp(n, p, b)) m.B.push_back(CF(k));
    m.tang = [n, p](const Mx &y, const Mx &e, const char *l) { Mx Y = CR(y, n, p), W = Y.t() * CR(e, n, p), G = Y.t() * Y; iszero(W * G - G * W.t(), l); };
    m.onman = [](const Mx &, const char *) {};
    m.hor = [n, p](const Mx &y, const Mx &v) { Mx Y = CR(y, n, p), V = CR(v, n, p), W = hinv(Y.t() * Y) * (Y.t() * V); return CF(V - .5 * (Y * (W - W.t()))); };
    m.ip = [n, p, hgz](const Mx &y, const Mx &a, const Mx &b) { Mx Y = CR(y, n, p), A = CR(a, n, p), B = CR(b, n, p); double h = ctr(Y.t() * Y * (A.t() * B)); if (hgz) return h; return 2 * (ctr(Y.t() * A * Y.t() * B) + h); };
    m.gw = [n, p, x](const Mx &eta) { auto herm = [n](const char *nm) { Mx A = csym(nm, n, n); return .5 * (A + A.t()); }; Mx S = herm("g"), T = herm("w"); return std::make_pair(CF(2. * (S * x)), CF(2. * (T * x) + 2. * (S * CR(eta, n, p)))); };
    defaults(m); return m;
}
// ---------------------------------------------------------------- complex fixed rank, two factors
static MD mkCQ2(int mm, int n, int r, bool intr, int b)
{
    MD m; auto S = std::make_shared<CFixedRankQ2F>(mm, n, r); m.M = S; S->SetIsIntrApproach(intr); m.flat = intr; int b2 = (b + 1) % 3; Mx G = cfacX(mm, r, b), H = cfacX(n, r, b2); int ng = mm * r; shapept(m);
    auto cat = [](const Mx &a, const Mx &b) { Mx u = CF(a), w = CF(b), v((int)(u.a.size() + w.a.size())); std::copy(w.a.begin(), w.a.end(), std::copy(u.a.begin(), u.a.end(), v.a.begin())); return v; };
    auto gp = [mm, r](const Mx &v) { return CR(v, mm, r); }; auto hp = [n, r, ng](const Mx &v) { return CR(v, n, r, ng); };
    m.x = cat(G, H);
    for (auto &M : genbasis(r, r)) m.B.push_back(cat(G * M, H * M.t()));
    for (auto &k : cperp(mm, r, b)) m.B.push_back(cat(k, cre(Mx(n, r)))); for (auto &k : cperp(n, r, b2)) m.B.push_back(cat(cre(Mx(mm, r)), k));
    m.tang = [gp, hp](const Mx &y, const Mx &e, const char *l) { Mx G = gp(y), H = hp(y), W = gp(e), Z = hp(e); Mx a = G.t() * W, b = Z.t() * H; iszero(a * (H.t() * H) - (G.t() * G) * b, l); };
    m.onman = [](const Mx &, const char *) {};
    m.hor = [gp, hp, cat](const Mx &y, const Mx &v) { Mx G = gp(y), H = hp(y), W = gp(v), Z = hp(v); Mx a = hinv(G.t() * G) * (G.t() * W), b = hinv(H.t() * H) * (H.t() * Z), L = .5 * (b.t() - a); return cat(W + G * L, Z - H * L.t()); };
    m.ip = [gp, hp](const Mx &y, const Mx &a, const Mx &b) { Mx G = gp(y), H = hp(y), A = gp(a) * H.t() + G * hp(a).t(), B = gp(b) * H.t() + G * hp(b).t(); return cdot(A, B); };
    m.gw = [gp, hp, cat, G, H, mm, n](const Mx &eta) { Mx F = csym("g", mm, n), T = csym("w", mm, n), dG = gp(eta), dH = hp(eta); return std::make_pair(cat(F * H, F.t() * G), cat(T * H + F * dH, T.t() * G + F.t() * dG)); };
    defaults(m); return m;
}
static void cprojretr(const MD &m, int mm, int n, int r)
{
    sym_div0_assume(true); Element X = m.X(), Y = m.X(); Mx eta = dirk(m, "e", 1); Element E = rep(m, X, eta); Mx e0 = iv(E); ((CFixedRankQ2F *)m.M.get())->ProjRetraction(X, E, &Y); Mx y = m.ptv(Y);
    auto gp = [mm, r](const Mx &v) { return CR(v, mm, r); }; auto hp = [n, r, mm](const Mx &v) { return CR(v, n, r, mm * r); };
    Mx G = gp(m.x), H = hp(m.x), A = G * H.t() + gp(eta) * H.t() + G * hp(eta).t(), U = gp(y), V = hp(y), Z = U * V.t(), D = A - Z;
    iszero(D.t() * U, "left_residual"); iszero(D * V, "right_residual"); iszero(U.t() * U - V.t() * V, "balanced"); if (r == 1) sym_le(cdot(D, D), cdot(Z, Z), "dominant");
    eqM(iv(E), e0, "step_unchanged"); eqM(m.ptv(X), m.x, "point_unchanged");
}
namespace { struct Init
{
    Init()
    {
        static const int N[] = {2, 2, 3, 3}, P[] = {1, 2, 1, 2};
        for (int set = 1; set <= 4; set++) for (int sh = 0; sh < 4; sh++)
        {
            int n = N[sh], p = P[sh], t = sh == 3; std::string nm = sym_fmt("CSt%d%ds%d", n, p, set); Mk mk = [=](int b) { return mkCSt(n, p, set, false, b); };
            if (set == 2) reg("rand", nm, mk, 1, law_rand, sh & 1);
            if (set == 1 || set == 2) { reg("proj", nm, mk, 3, law_proj); reg("metr", nm, mk, 3, law_metric); reg("grad", nm, mk, 3, [](const MD &m) { law_grad(m); }); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); }, t); }
            if (set == 2 && sh != 2) { Mk mc = [=](int b) { return mkCSt(n, p, 2, true, b); }; std::string nc = sym_fmt("CSt%d%dc", n, p); reg("metr", nc, mc, 3, law_metric0); reg("grad", nc, mc, 3, [](const MD &m) { law_grad(m); }); reg("hess", nc, mc, 3, [](const MD &m) { law_hess(m); }, t); }
            if (set == 1) { reg("intr", nm, mk, 3, law_intr); reg("intrn", nm, mk, 3, [=](const MD &m) { std::vector<Mx> Bn; for (auto &s : hermbasis(p, false)) Bn.push_back(CF(CR(m.x, n, p) * s)); law_normal(m, Bn); }); }
            if (set <= 2)
            {
                reg("retr", nm, mk, 3, [](const MD &m) { law_retr(m, 1, 0); }, t); reg("retr0", nm, mk, 3, law_retr_zero); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); }, t); reg("reuse", nm, mk, 2, [](const MD &m) { law_reuse(m, 1); }, sh > 1);
                reg("vt", nm, mk, 2, [=](const MD &m) { law_vt(m, 1, set == 1, set == 1); }, t || (sh == 1 && set == 2)); reg("vt0", nm, mk, 3, law_vt_id); reg("diff", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, false); }, sh & 1); reg("diffs", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, true); }, sh & 1);
                reg("lock", nm, mk, 2, [=](const MD &m) { law_lock(m, 1); }, sh > 0); if (set == 1) { reg("lockvt", nm, mk, 2, [=](const MD &m) { law_lockvt(m, 1, true); }, sh > 0); reg("opetr", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, false); }, t); reg("opetrl", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, true); }, 1); }
                if (sh < 2) reg("ope", nm, mk, 1, law_ope);
            }
            else for (std::string w : {"retr", "retrd", "inv", "vt", "diffs", "lock"}) sym_register_case(w + "_" + nm, [=]() { cpolar(w, n, p, set); sym_reach("end"); }, sh > 1);
        }
        for (int set = 1; set <= 4; set++) for (int sh = 0; sh < 4; sh++) for (int intr = 0; intr < 2; intr++)
        {
            int n = N[sh], p = P[sh], t = sh == 3; std::string nm = sym_fmt("CSF%d%ds%d%s", n, p, set, intr ? "i" : "x"); Mk mk = [=](int b) { return mkCSF(n, p, set, intr, b); }; bool proj = set > 2;
            if (set == 1 && !intr && sh < 2) reg("rand", nm, mk, 1, law_rand);
            if (!proj && !intr) { reg("proj", nm, mk, 3, law_proj, t); reg("intr", nm, mk, 3, law_intr, t); reg("grad", nm, mk, 3, [](const MD &m) { law_grad(m); }, t); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); }, t); reg("retr", nm, mk, 3, [=](const MD &m) { law_retr(m, 2, 0); Step s = step(m, 2); eqM(s.y, m.x + s.eta, "sum"); }, t); reg("retr0", nm, mk, 3, law_retr_zero, t); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); }, t); }
            if (!proj) reg("metr", nm, mk, 3, law_metric, t);
            if (!intr && sh < 3) { reg("diff", nm, mk, 12, [=](const MD &m) { sym_div0_assume(true); law_diff(m, 1, false); }, proj || sh > 0); reg("diffs", nm, mk, 12, [=](const MD &m) { sym_div0_assume(true); law_diff(m, 1, true); }, proj || sh > 0); if (proj) reg("vt", nm, mk, 2, [=](const MD &m) { sym_div0_assume(true); law_vt(m, 1, false, false); }, sh > 0); }
            if (p == 1 && n == 2) reg("ope", nm, mk, 1, law_ope, set > 1);
            if (!proj && n == 2 && p == 1 && intr) { reg("lock", nm, mk, 2, [=](const MD &m) { law_lock(m, 1); }, set != 2); reg("lockvt", nm, mk, 2, [=](const MD &m) { law_lockvt(m, 1, true); }, set != 2); reg("opetrl", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, true); }, 1); reg("opetr", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, false); }, set != 2); }
        }
        for (int intr = 0; intr < 2; intr++) for (int mm = 2; mm <= 3; mm++) reg("retrp", sym_fmt("CF2%d21%s", mm, intr ? "i" : "x"), [=](int b) { return mkCQ2(mm, 2, 1, intr, b); }, 2, [=](const MD &m) { cprojretr(m, mm, 2, 1); });
        for (int sh = 0; sh < 4; sh++) for (int intr = 0; intr < 2; intr++)
        {
            static const int Ms[] = {2, 1, 2, 3}, Ns[] = {1, 2, 2, 3}, Rs[] = {1, 1, 2, 2}; int mm = Ms[sh], n = Ns[sh], r = Rs[sh]; std::string nm = sym_fmt("CF2%d%d%d%s", mm, n, r, intr ? "i" : "x"); Mk mk = [=](int b) { return mkCQ2(mm, n, r, intr, b); }; int t = sh == 3;
            if (!intr) { reg("rand", nm, mk, 1, law_rand, t); reg("proj", nm, mk, 3, law_proj, t); reg("intr", nm, mk, 3, law_intr, t); reg("grad", nm, mk, 3, [](const MD &m) { law_grad(m); }, t); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); }, t); }
            reg("metr", nm, mk, 3, law_metric, t);
            reg("retr", nm, mk, 3, [](const MD &m) { law_retr(m, 1, 0); Step s = step(m, 1); eqM(s.y, m.x + s.eta, "sum"); }, t); reg("retr0", nm, mk, 3, law_retr_zero, t); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); }, t); reg("reuse", nm, mk, 2, [](const MD &m) { law_reuse(m, 1); }, t || r == 2);
            if (r == 1) { reg("vt", nm, mk, 2, [=](const MD &m) { law_vt(m, 1, true, true); }, t); reg("diff", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, false); }, t); reg("diffs", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, true); }, t); reg("lock", nm, mk, 2, [=](const MD &m) { law_lock(m, 1); }, t); if (intr) { reg("opetr", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, false); }, t); } }
            if (intr && sh < 2) reg("ope", nm, mk, 1, law_ope, t);
        }
    }
} init; }
