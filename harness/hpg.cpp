// The proximal gradient solvers (ManPG, AManPG) on an arbitrary cost function and with arbitrary solutions of the subproblem: pg_.
#include "sol.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
namespace {
struct Px { Mx x, g, d; double ada, tol, lam; size_t r; };
struct PGSpace : public Space
{
    using Space::Space; mutable std::vector<Px> P; std::function<Mx(int)> dir;
    virtual Vector &TangentSpaceProximalMap(Variable &x, const Vector &g, realdp ada, realdp tol, realdp lam, const Problem *, Vector *, integer *it, integer *cg, Vector *r) const
    { Mx d = dir ? dir(P.size()) : Mx::sym(sym_fmt("d%d_", (int)P.size()).c_str(), Q.r); if (Q.r == 1 && !dir) sym_assume_ne(d(0), 0); P.push_back({rd(x), rd(g), d, (double)ada, (double)tol, (double)lam, R.size()}); *it = 3; *cg = 5; if (&g != r) *r = g; return out(d, r); }
    virtual Vector &InvRetraction(const Variable &x, const Variable &y, Vector *r) const { Mx d = rd(y) - rd(x); if (r->Getlength() != Q.r) *r = GetEMPTY(); return out(d, r); }
};
std::vector<char> ANS; struct Stp { Mx x1, x2; double nd, nd0; int iter; }; std::vector<Stp> ST;
bool rec(const Variable &x, const Vector &, integer, realdp nd, realdp nd0, const Problem *, const Solvers *s) { SolversNSMPGLS *a = (SolversNSMPGLS *)s; ST.push_back({rd(a->x1), rd(x), nd, nd0, (int)a->iter}); return !ANS.empty() && ANS[ST.size() - 1]; }
struct Drv
{
    std::shared_ptr<PGSpace> S; std::shared_ptr<Cost> C; Variable x0; std::shared_ptr<SolversNSMPGLS> A; int n;
    Drv(int acc, int n_, int iters, int gap, double mw) : n(n_)
    {
        ANS.clear(); ST.clear(); S = std::make_shared<PGSpace>(n); S->mw = mw; C = std::make_shared<Cost>(S.get()); x0 = S->GetEMPTY(); realdp *p = x0.ObtainWriteEntireData(); for (int i = 0; i < n; i++) p[i] = mw != 0 ? 1 : 0;
        if (acc) { auto a = std::make_shared<AManPG>(C.get(), &x0); a->SGIterGap = gap; A = a; } else A = std::make_shared<ManPG>(C.get(), &x0);
        A->StopPtr = rec; A->Max_Iteration = iters; A->OutputGap = 100; A->Verbose = ITERRESULT; A->LS_alpha = .125; A->LS_ratio = .25; A->Minstepsize = 1. / 8; C->distinct = true;
    }
};
struct Ref   // the line search from x along d: trial points, accepted step (0 if none)
{
    double t, f; Mx y; size_t r;
    Ref(Drv &D, const Mx &x, const Mx &d, size_t r0) : r(r0)
    {
        Cost &C = *D.C; double sl = D.S->ip(x, C.G(C.at(x)), d), f1 = C.F(C.at(x)); t = 1;
        while (1) { if (r >= D.S->R.size()) { sym_true(false, "trial point missing"); t = 0; return; } RCall &c = D.S->R[r++]; eqM(c.x, x, "trial from the iterate"); eqM(c.e, t * d, "trial step"); y = c.y; f = C.F(C.at(y)); if (f1 - f < -D.A->LS_alpha * sl * t) { t *= D.A->LS_ratio; if (t < D.A->Minstepsize) { t = 0; return; } continue; } return; }
    }
};
void chk(Drv &D, int acc, int gap, int var)
{
    SolversNSMPGLS &A = *D.A; Cost &C = *D.C; PGSpace &S = *D.S; int it = A.GetIter(); Mx xf = rd(A.GetXopt()); int nf = C.nf, ng = C.ng, nR = S.R.size(); sym_true(A.Getnf() == nf, "number of function evaluations"); sym_true(A.Getng() == ng, "number of gradient evaluations"); sym_true(A.GetnR() == nR, "number of retractions"); sym_true(A.GetlengthSeries() == it + 1, "length of the series"); sym_true(it <= A.Max_Iteration, "at most Max_Iteration iterations");
    const realdp *fs = A.GetfunSeries().ObtainReadData(), *ds = A.GetdirSeries().ObtainReadData(), *ts = A.GetSolverInfo().Field("acceptedstepsize").ObtainReadData(), *t0 = A.GetSolverInfo().Field("initialstepsize").ObtainReadData();
    Mx x = rd(D.x0), z = x, y = x; double f = C.F(C.at(x)), ada = 1, tol = 1e-10, lam = .2, nd0 = 0, nd = 1, s = 1, fz = f, lastt = 1; size_t p = 0, r = 0; int k = 0; sym_eq(fs[0], f, "series of function values"); bool failed = false, stop = !ANS.empty() && ANS[0]; sym_reach("ran");
    while (!stop && k < A.Max_Iteration)
    {
        auto px = [&](const Mx &at) -> Mx { if (p >= S.P.size()) { sym_true(false, "subproblem missing"); return Mx(D.n); } Px &q = S.P[p++]; eqM(q.x, at, "subproblem at the iterate"); eqM(q.g, C.G(C.at(at)), "subproblem with the gradient at the iterate"); sym_eq(q.ada, ada, "weight of the subproblem"); sym_eq(q.tol, tol, "tolerance of the subproblem"); sym_eq(q.lam, lam, "regularization of the subproblem"); return q.d; };
        double f2 = f; Mx x2 = x;
        if (!acc || k % gap == 0)
        {
            Mx d = px(x); nd = std::sqrt(S.ip(x, d, d)); if (nd0 == 0) nd0 = nd; Ref L(D, x, d, r); r = L.r;
            if (L.t == 0) { sym_reach("short"); if (lam == 1e-10 && tol == 1e-24) { failed = true; break; } tol = tol * .01 > 1e-24 ? tol * .01 : 1e-24; lam = lam * .1 > 1e-10 ? lam * .1 : 1e-10; continue; }
            if (var) { if (L.t == 1) ada /= 1.01; else ada = ada * 1.01 < 1 ? ada * 1.01 : 1; } lastt = L.t; f2 = L.f; x2 = L.y; if (L.t == 1) sym_reach("full"); else sym_reach("backtracked");
            if (acc) { if (k && f2 < fz) { y = z = x2; s = 1; fz = f2; sym_reach("restart"); } else if (k) sym_reach("kept"); sym_le(C.F(C.at(z)), k ? f2 : f, "safeguard iterate no worse than the line search"); x = z; f = C.F(C.at(x)); }
        }
        if (acc)
        {
            Mx d = px(y); if (r + 2 > S.R.size()) { sym_true(false, "accelerated step missing"); return; } RCall &a = S.R[r], &b = S.R[r + 1]; r += 2; eqM(a.x, y, "proximal step from the extrapolated point"); eqM(a.e, d, "proximal step"); double s2 = (1 + std::sqrt(1 + 4 * s * s)) / 2; Mx zn = a.y; eqM(b.x, zn, "extrapolation from the new iterate"); eqM(b.e, ((s - 1) / s2) * (zn - z), "extrapolation"); if (s != 1) sym_reach("extrapolated"); y = b.y; z = zn; fz = C.F(C.at(z)); s = s2;
        }
        else { x = x2; f = f2; }
        k++; stop = !ANS.empty() && ANS[ST.size() > (size_t)k ? k : 0]; if (k > it) { sym_true(false, "iteration missing"); return; }
        if (!acc) { sym_eq(fs[k], f, "series of function values"); sym_eq(ts[k], lastt, "series of accepted step sizes"); } sym_eq(ds[k], nd, "series of lengths of the directions"); sym_eq(t0[k], 1, "series of initial step sizes");
        if ((int)ST.size() > k) { sym_eq(ST[k].nd, nd, "length given to the stopping criterion"); sym_eq(ST[k].nd0, nd0, "initial length given to the stopping criterion"); }
    }
    sym_true(k == it, "number of iterations"); sym_true(p == S.P.size(), "number of subproblems"); sym_true(r == S.R.size(), "number of steps"); eqM(xf, x, "optimizer is the last iterate"); sym_eq(A.Getfinalfun(), f, "final function value"); sym_eq(A.Getnormnd(), nd, "final length of the direction"); if (failed) sym_reach("failed"); else sym_true((int)ST.size() == k + 1, "criterion consulted once per iterate");
}
void run(int acc, int n, int iters, int gap, int var, double mw, int gconc, int fconc, int dconc)
{
    Drv D(acc, n, iters, gap, mw); D.A->Variant = var ? LSPG_ADALIPSCHITZ : LSPG_REGULAR; static const double L[6][2] = {{-1, .5}, {.5, -.25}, {-.5, -1}, {.25, .125}, {1, -.75}, {-2, 1}};
    if (gconc) D.C->grad = [n](int i) { Mx g(n); for (int a = 0; a < n; a++) g(a) = -L[(i + 1) % 6][a]; return g; }; if (dconc) D.S->dir = [n](int i) { Mx g(n); for (int a = 0; a < n; a++) g(a) = L[i % 6][a] + i / 6; return g; }; if (fconc) D.C->val = [fconc](int i) { return fconc == 2 ? -10. * i : i * 1.; };
    D.A->Run(); chk(D, acc, gap, var);
}
void stop(int acc, int mn)
{
    Drv D(acc, 1, 4, 2, 0); D.A->Min_Iteration = mn; D.S->dir = [](int i) { Mx d(1); d(0) = 1 + i; return d; }; D.C->grad = [](int i) { Mx g(1); g(0) = -1; return g; }; D.C->val = [](int i) { return -10. * i; }; for (int k = 0; k < 6; k++) ANS.push_back(sym_choice(sym_fmt("stop%d", k).c_str(), 2)); D.A->Run(); int want = 4; for (int k = 0; k < 4; k++) if (ANS[k] && k >= mn) { want = k; break; } sym_true(D.A->GetIter() == want, "stops at the first iterate satisfying the criterion"); sym_reach(sym_fmt("stop%d", want).c_str());
}
void crit(int c, int mn)
{
    Drv D(0, 1, 3, 2, 0); D.A->StopPtr = nullptr; D.A->Min_Iteration = mn; double tol = sym_pos("tol"); D.A->Tolerance = tol; D.A->Stop_Criterion = (StopCritNSM)c; std::vector<double> d, f; for (int k = 0; k < 4; k++) { d.push_back(c == NSM_FUN_REL ? 1 : sym_pos(sym_fmt("d%d", k).c_str())); f.push_back(c == NSM_FUN_REL ? sym_real(sym_fmt("v%d", k).c_str()) : -10. * k); } D.S->dir = [d](int i) { Mx v(1); v(0) = d[i]; return v; }; D.C->grad = [](int i) { Mx g(1); g(0) = -1; return g; };
    D.C->val = [f](int i) { return f[i]; }; D.A->LS_alpha = 0; for (int k = 0; k < 3; k++) sym_assume_le(f[k + 1], f[k]); D.A->Run(); int want = 3; for (int k = 1; k < 3; k++) { bool s = c == NSM_FUN_REL ? std::fabs((f[k - 1] - f[k]) / (std::fabs(f[k - 1]) + 1)) < tol : c == NSM_DIR_F ? d[k - 1] < tol : d[k - 1] / d[0] < tol; if (s && k >= mn) { want = k; break; } } if (c == NSM_DIR_F && mn == 0) sym_assume_le(tol, 1); sym_true(D.A->GetIter() == want, "stops at the first iterate satisfying the criterion"); sym_reach(sym_fmt("stop%d", want).c_str());
}
void nan_(int acc)
{
    Drv D(acc, 1, 3, 1, 0); D.S->dir = [](int) { Mx d(1); d(0) = 1; return d; }; D.C->val = [](int i) { return i == 1 ? NAN : sym_real(sym_fmt("f%d", i).c_str()); }; D.A->Run(); eqM(rd(D.A->GetXopt()), rd(D.x0), "iterate unchanged"); sym_eq(D.A->Getfinalfun(), D.C->F(0), "function value of the iterate"); sym_true(D.A->GetIter() == 0, "no iteration counted"); sym_reach("nan");
}
struct Init
{
    Init()
    {
        struct R { const char *nm; int acc, n, it, gap, var; double mw; int g, f, d, tier; }; static const R T[] = {
            {"one", 0, 1, 1, 1, 1, 0, 0, 0, 0}, {"two", 0, 1, 2, 1, 1, 0, 1, 0, 1}, {"reg", 0, 1, 2, 1, 0, 0, 1, 0, 1}, {"dir", 0, 1, 2, 1, 1, .25, 1, 2, 0}, {"grad", 0, 1, 2, 1, 1, .25, 0, 2, 1}, {"dir2", 0, 2, 2, 1, 1, 0, 1, 2, 0}, {"met2", 0, 2, 2, 1, 1, .25, 1, 2, 0, 1}, {"all", 0, 1, 2, 1, 1, 0, 0, 0, 0, 1}, {"three", 0, 1, 3, 1, 1, 0, 1, 0, 1, 1},
            {"acc_one", 1, 1, 1, 1, 0, 0, 0, 0, 0}, {"acc_two", 1, 1, 2, 1, 0, 0, 1, 0, 1}, {"acc_ada", 1, 1, 2, 1, 1, 0, 1, 0, 1}, {"acc_gap", 1, 1, 3, 2, 0, 0, 1, 0, 1}, {"acc_dir", 1, 2, 3, 2, 0, 0, 1, 2, 0}, {"acc_met", 1, 1, 2, 1, 0, .25, 1, 2, 0}, {"acc_gap3", 1, 1, 4, 3, 0, 0, 1, 0, 1}, {"acc_three", 1, 1, 3, 1, 0, 0, 1, 0, 1, 1}, {"acc_all", 1, 1, 2, 1, 0, 0, 0, 0, 0, 1}};
        for (auto &t : T) { R r = t; sym_register_case(sym_fmt("pg_%s", t.nm), [r] { run(r.acc, r.n, r.it, r.gap, r.var, r.mw, r.g, r.f, r.d); }, r.tier); }
        for (int a = 0; a < 2; a++) { sym_register_case(sym_fmt("pg_stop%d", a), [a] { stop(a, 0); }); sym_register_case(sym_fmt("pg_stopmin%d", a), [a] { stop(a, 2); }); sym_register_case(sym_fmt("pg_nan%d", a), [a] { nan_(a); }); }
        sym_register_case("pg_crit_fun", [] { crit(NSM_FUN_REL, 0); }); sym_register_case("pg_crit_dir", [] { crit(NSM_DIR_F, 0); }); sym_register_case("pg_crit_dir0", [] { crit(NSM_DIR_F_0, 0); }); sym_register_case("pg_crit_min", [] { crit(NSM_DIR_F_0, 2); });
    }
} init_; }
