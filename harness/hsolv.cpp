// Whole runs of the smooth solvers on an arbitrary cost function: what they report (rep_), when they stop (stop_),
// trust region steps (tr_), quasi-Newton approximations (qn_), search directions and initial step sizes (dir_, init_).
#include "sol.h"
#include "Solvers/RSD.h"
#include "Solvers/RCG.h"
#include "Solvers/RBFGS.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/RWRBFGS.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/RNewton.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
namespace {
std::vector<Mx> XS; std::vector<double> NG, NG0;
bool rec(const Variable &x, const Vector &, integer, realdp ngf, realdp ngf0, const Problem *, const Solvers *) { XS.push_back(rd(x)); NG.push_back(ngf); NG0.push_back(ngf0); return false; }
enum Kind { SD, CG, BFGS, LBFGS, RWB, BROY, NEWTON, NLS, TRSD = NLS, TRN, SR1, LSR1, NALL };
const char *KN[] = {"rsd", "rcg", "rbfgs", "lrbfgs", "rwrbfgs", "rbroyden", "rnewton", "rtrsd", "rtrnewton", "rtrsr1", "lrtrsr1"};
SolversSM *mkS(int k, const Problem *P, const Variable *x)
{
    switch (k) { case SD: return new RSD(P, x); case CG: return new RCG(P, x); case BFGS: return new RBFGS(P, x); case LBFGS: return new LRBFGS(P, x); case RWB: return new RWRBFGS(P, x); case BROY: return new RBroydenFamily(P, x);
        case NEWTON: return new RNewton(P, x); case TRSD: return new RTRSD(P, x); case TRN: return new RTRNewton(P, x); case SR1: return new RTRSR1(P, x); default: return new LRTRSR1(P, x); }
}
struct Drv
{
    int kind, n; std::shared_ptr<Space> S; std::shared_ptr<Cost> C; Variable x0; std::shared_ptr<SolversSM> A;
    Drv(int kd, int n_, int iters, double q = 0, double k = 0) : kind(kd), n(n_)
    {
        XS.clear(); NG.clear(); NG0.clear(); S = std::make_shared<Space>(n, k, q); C = std::make_shared<Cost>(S.get()); x0 = S->GetEMPTY(); realdp *p = x0.ObtainWriteEntireData(); for (int i = 0; i < n; i++) p[i] = 0;
        A.reset(mkS(kd, C.get(), &x0)); A->StopPtr = rec; A->Max_Iteration = iters; A->OutputGap = 100; A->Verbose = ITERRESULT; A->Accuracy = 0;
        if (kd < NLS) { ls().InitSteptype = LSSM_ONESTEP; ls().Initstepsize = 1; }
    }
    SolversSMLS &ls() { return *(SolversSMLS *)A.get(); }
    SolversSMTR &tr() { return *(SolversSMTR *)A.get(); }
    // every iteration takes the step t along the direction, without a line search
    void fixed(double t) { A->Accuracy = 1e300; ls().PreFunsAccuracy = 1e300; ls().Finalstepsize = t; C->distinct = true; if (!C->val) C->val = [](int i) { return -10. * i; }; }
    void run() { A->Run(); }
};
// everything the solver reports agrees with the cost function at the iterates
void chk_rep(Drv &D)
{
    SolversSM &A = *D.A; Cost &C = *D.C; Space &S = *D.S; bool tr = D.kind >= NLS; sym_reach("ran");
    Mx x = rd(A.GetXopt()); int i = C.at(x); eqM(x, XS.back(), "optimizer is the last iterate");
    int nf = C.nf, ng = C.ng, nR = S.R.size(), nh = C.nh;
    sym_eq(A.Getfinalfun(), C.F(i), "final function value"); double gn = std::sqrt(nrm2(C.G(i))), g0 = std::sqrt(nrm2(C.G(0)));
    sym_eq(A.Getnormgf(), gn, "final gradient norm"); sym_eq(A.Getnormgfgf0() * g0, gn, "final relative gradient norm");
    sym_true(A.Getnf() == nf, "number of function evaluations"); sym_true(A.Getng() == ng, "number of gradient evaluations"); sym_true(A.GetnR() == nR, "number of retractions");
    if (D.kind == NEWTON || D.kind == TRN) sym_true(A.GetnH() == nh, "number of Hessian actions");
    int it = A.GetIter(); sym_true(it <= A.Max_Iteration, "at most Max_Iteration iterations"); sym_true(A.GetlengthSeries() == it + 1, "length of the series");
    std::vector<Mx> it_; if (!tr) it_ = XS; else { for (int k = 0; k < it && k < (int)S.R.size(); k++) it_.push_back(S.R[k].x); it_.push_back(x); }
    sym_true((int)it_.size() == it + 1, "one iterate per iteration"); if ((int)it_.size() != it + 1) return;
    const realdp *fs = A.GetfunSeries().ObtainReadData(), *gs = A.GetgradSeries().ObtainReadData();
    for (int k = 0; k <= it; k++) { int j = C.at(it_[k]); sym_eq(fs[k], C.F(j), "series of function values"); sym_eq(gs[k], std::sqrt(nrm2(C.G(j))), "series of gradient norms"); }
    for (size_t k = 0; k < XS.size(); k++) { sym_eq(NG[k], std::sqrt(nrm2(C.G(C.at(XS[k])))), "gradient norm given to the stopping criterion"); sym_eq(NG0[k], g0, "initial gradient norm given to the stopping criterion"); }
    // consecutive iterates are joined by a retraction that was computed
    for (size_t k = 1; k < XS.size(); k++) { bool ok = false; for (auto &r : S.R) { bool a = true, b = true; for (int c = 0; c < D.n; c++) { a = a && sym_same(r.x(c), XS[k - 1](c)); b = b && sym_same(r.y(c), XS[k](c)); } ok = ok || (a && b); } sym_true(ok, "iterate is a retraction from its predecessor"); }
}
void chk_mono(Drv &D)
{
    const realdp *fs = D.A->GetfunSeries().ObtainReadData(); int it = D.A->GetIter();
    for (int k = 1; k <= it; k++) { if (D.kind < NLS && k == it && D.ls().LSstatus != LSSM_SUCCESS) continue; sym_le(fs[k], fs[k - 1], "function value never increases"); }
}
void rep_ls(int kd, int alg, int iters, int cap, double k, bool all = true)
{
    Drv D(kd, 1, iters, 0, k); D.S->cap = cap; D.C->grad = [all](int i) { Mx g(1); if (i == 0) g(0) = 1; else if (i == 1 && !all) g(0) = .5; else g(0) = sym_real(sym_fmt("g%d", i).c_str()); return g; };
    D.ls().LineSearch_LS = (LSAlgoSM)alg; D.ls().LS_alpha = .125; D.ls().LS_beta = .5; D.ls().LS_ratio1 = D.ls().LS_ratio2 = .25; D.run(); chk_rep(D); if (alg == LSSM_ARMIJO || alg == LSSM_WOLFE || alg == LSSM_STRONGWOLFE) chk_mono(D);
}
void rep_fixed(int kd, int n, int iters)
{
    Drv D(kd, n, iters, .5); D.fixed(.5); D.C->grad = [n](int i) { Mx g(n); for (int a = 0; a < n; a++) { static const double L[4][2] = {{1, 1}, {.25, -.5}, {-.5, .125}, {.25, .5}}; g(a) = L[i % 4][a]; } return g; };
    D.run(); chk_rep(D);
}
void rep_tr(int kd, int iters, bool all)
{
    Drv D(kd, 1, iters); D.C->grad = [all](int i) { Mx g(1); if (i == 0) g(0) = 1; else if (i == 1 && !all) g(0) = .5; else g(0) = sym_real(sym_fmt("g%d", i).c_str()); return g; };
    D.C->posg = true; D.run(); chk_rep(D); chk_mono(D);
}
// the cost function is not a number at the first trial point
void rep_nan(int kd)
{
    Drv D(kd, 1, 2); D.C->posg = true; D.C->val = [](int i) { return i == 1 ? NAN : sym_real(sym_fmt("f%d", i).c_str()); }; if (kd < NLS) D.ls().LineSearch_LS = LSSM_ARMIJO; D.run();
    eqM(rd(D.A->GetXopt()), rd(D.x0), "iterate unchanged"); sym_eq(D.A->Getfinalfun(), D.C->F(0), "function value of the iterate"); sym_eq(D.A->Getnormgf(), std::sqrt(nrm2(D.C->G(0))), "gradient norm of the iterate"); sym_true(D.A->GetIter() == 0, "no iteration counted"); sym_reach("nan");
}
// stopping: the number of iterations is the first at which the criterion holds, between Min_Iteration and Max_Iteration
void stop_case(int kd, int crit, int mn, int mx, bool usr)
{
    Drv D(kd, 1, mx); D.A->StopPtr = nullptr; D.A->Min_Iteration = mn; D.C->posg = true; if (kd < NLS) D.fixed(.5); double tol = sym_pos("tol"); D.A->Tolerance = tol; D.A->Stop_Criterion = (StopCritSM)crit;
    static std::vector<int> ans; static int calls; ans.clear(); calls = 0;
    if (usr) { for (int k = 0; k < 6; k++) ans.push_back(sym_choice(sym_fmt("stop%d", k).c_str(), 2)); D.A->StopPtr = [](const Variable &, const Vector &, integer, realdp, realdp, const Problem *, const Solvers *) { return ans[calls++] == 1; }; }
    if (kd < NLS) D.C->grad = [](int i) { Mx g(1); g(0) = i == 0 ? 1 : sym_real(sym_fmt("g%d", i).c_str()); return g; };
    if (kd < NLS && (usr || crit != SM_FUN_REL)) D.C->val = [](int i) { static const double L[] = {1, .5, .75, -1, -3}; return L[i % 5]; };
    if (kd < NLS && !usr && crit == SM_FUN_REL) D.C->val = [](int i) { return i == 0 ? 1. : sym_real(sym_fmt("f%d", i).c_str()); };
    if (usr || crit == SM_FUN_REL) D.C->grad = [](int i) { static const double L[] = {1, .5, -.25, 2, -1}; Mx g(1); g(0) = L[i % 5]; return g; };
    D.run(); int K = D.A->GetIter(); const realdp *f = D.A->GetfunSeries().ObtainReadData(), *g = D.A->GetgradSeries().ObtainReadData(); int want = -1;
    sym_true(K <= std::max(mx, mn), "at most Max_Iteration iterations"); sym_true(K >= std::min(mn, mx) || kd >= NLS, "at least Min_Iteration iterations"); if (K > mx) return;
    for (int k = 0; k <= K && want < 0; k++)
    {
        bool c; if (usr) c = ans[k] == 1; else if (crit == SM_FUN_REL) c = k > 0 && std::fabs((f[k - 1] - f[k]) / (std::fabs(f[k - 1]) + 1)) < tol; else if (crit == SM_GRAD_F) c = g[k] < tol; else c = g[k] < tol * g[0];
        if ((c && k >= mn) || k == mx) want = k;
    }
    sym_true(want == K, "stops at the first iterate satisfying the criterion"); if (usr) sym_true(calls == K + 1, "criterion evaluated once at every iterate"); sym_reach(sym_fmt("stop%d", K).c_str());
}
// ---- trust region
// one step of the trust region method with an arbitrary model
void tr_step(int n, int inner, double kappa, double theta, bool gen = true, double fixDelta = 0, double off = .5, bool prec = false)
{
    Drv D(TRN, n, 1); Cost &C = *D.C; C.grad = [n](int i) { if (i) return Mx::sym(sym_fmt("g%d_", i).c_str(), n); Mx g(n); g(0) = 1; return g; };
    Mx W = Mx::eye(n); if (prec) { W = Mx::lit(2, 2, {1, -.5, -.5, 1.25}); C.hasp = true; C.prec = Mx::lit(2, 2, {1.25, .5, .5, 1}); }
    SolversSMTR &A = D.tr(); double De = fixDelta ? fixDelta : sym_pos("Delta"); if (!gen) C.hess = [off](int) { Mx h(2, 2); h(0, 0) = sym_real("h00"); h(1, 1) = sym_real("h11"); h(0, 1) = h(1, 0) = off; return h; }; A.initial_Delta = De; A.Max_Inner_Iter = inner; A.kappa = kappa; A.theta = theta; A.minimum_Delta = 0; if (!fixDelta) sym_assume_lt(De, 100); D.S->cap = 1; C.distinct = true;
    D.S->onR = nullptr; D.run(); Mx e = D.S->R[0].e, g = C.G(0), H = C.H(0); double ne = dot(e, W * e); sym_le(ne, De * De, "step within the trust region");
    auto m = [&](const Mx &v) { return dot(g, v) + .5 * dot(v, H * v); }; Mx z = prec ? C.prec * g : g; double gHg = dot(z, H * z), gz = dot(g, z), zz = dot(z, W * z); Mx c; if (gHg <= 0 || gz * gz * zz >= De * De * gHg * gHg) c = (-De / std::sqrt(zz)) * z; else c = (-gz / gHg) * z;
    sym_le(m(e), m(c), "model decrease of at least the Cauchy point"); sym_reach("step");
    // why the inner iteration ended
    switch (A.tCGstatusSM)
    {
        case TRSM_NEGCURVTURE: case TRSM_EXCREGION: sym_eq(ne, De * De, "step on the boundary of the trust region"); sym_reach(A.innerIter ? "boundary later" : "boundary first"); break;
        case TRSM_LCON: case TRSM_SCON: { Mx r = g + H * e; sym_le(nrm2(r), kappa * kappa, "residual of the model meets the tolerance"); if (theta == 1) sym_true(A.tCGstatusSM == TRSM_LCON, "linear convergence"); sym_reach("converged"); break; }
        case TRSM_MAXITER: sym_true(A.innerIter == inner, "maximum number of inner iterations"); break;
        default: sym_true(false, "model value does not decrease");
    }
    sym_true(D.A->GetIter() == 1, "one iteration");
}
// acceptance and radius update, step by step
void tr_accept(int kd, int iters, int n, bool gen = true)
{
    Drv D(kd, n, iters); Cost &C = *D.C; if (!gen) C.hess = [](int i) { static const double L[] = {2, -1, .5, 4, 0}; Mx h(1, 1); h(0) = i ? L[i % 5] : sym_real("h0"); return h; }; C.grad = [n, gen](int i) { if (!gen) { static const double L[] = {1, -.5, 2, .75, -3}; Mx g(1); g(0) = L[i % 5]; return g; } Mx g(n); for (int a = 0; a < n; a++) g(a) = i == 0 ? (a == 0 ? 1 : 0) : sym_real(sym_fmt("g%d_%d", i, a).c_str()); if (i && n == 1) sym_assume_ne(g(0), 0); return g; };
    SolversSMTR &A = D.tr(); double De = 1, mx = 1.5; A.initial_Delta = De; A.maximum_Delta = mx; A.minimum_Delta = 1. / 1024; A.Acceptence_Rho = .125; C.distinct = true;
    struct St { Mx e; double H; }; D.run();
    // replay the documented update on the recorded steps
    int N = D.S->R.size(); Mx x = rd(D.x0); double f = C.F(0); Mx H1(1, 1);
    for (int k = 0; k < N; k++)
    {
        const RCall &r = D.S->R[k]; eqM(r.x, x, "step starts at the current iterate"); int j = C.at(r.y), i = C.at(x); double fn = C.F(j), h = kd == TRSD ? 1 : C.H(i)(0); sym_le(nrm2(r.e), De * De, "step within the trust region of the documented radius");
        double m = C.G(i)(0) * r.e(0) + .5 * h * r.e(0) * r.e(0), rho = (f - fn) / (-m); bool bnd = nrm2(r.e) == De * De; sym_lt(m, 0, "model decreases");
        if (rho > .75) { if (bnd) De = std::min(2 * De, mx); } else if (rho < .25) De = .25 * De;
        bool small = std::fabs(f - fn) / (std::fabs(f) + 1) < std::sqrt(std::numeric_limits<double>::epsilon()) && fn < f;
        if (De < 1. / 1024) break;
        if (rho > .125 || small) { x = r.y; f = fn; sym_reach("accepted"); } else sym_reach("rejected");
    }
    eqM(rd(A.GetXopt()), x, "accepted exactly when the decrease is sufficient"); sym_eq(A.Getfinalfun(), f, "function value of the accepted iterate"); sym_eq(A.Delta, De, "radius updated as documented");
}

// ---- quasi-Newton approximations and search directions: every iteration takes the step t = .5 along the direction
// gradients: concrete (of rational norm), but arbitrary at the points of index in the set 'sy' (bit mask)
static const double GL[3][5][2] = {{{.75, 1}, {.375, -.5}, {-.3125, .75}, {.5, .375}, {-.1875, .25}}, {{3, 4}, {4, 3}, {-.75, 1}, {.625, 1.5}, {.5, .375}}, {{1, 0}, {.75, 1}, {-.5, .375}, {.3125, -.75}, {.375, .5}}};
std::function<Mx(int)> gl(int set, int sy, int n) { return [=](int i) { Mx g(n); for (int a = 0; a < n; a++) g(a) = sy >> i & 1 ? sym_real(sym_fmt("g%d_%d", i, a).c_str()) : GL[set][i % 5][a]; return g; }; }
const double STEP = .5;
struct It { Mx x, e, y, g, g1, d; };
std::vector<It> its(Drv &D) { std::vector<It> v; for (auto &r : D.S->R) v.push_back({r.x, r.e, r.y, D.C->G(D.C->at(r.x)), D.C->G(D.C->at(r.y)), (1 / STEP) * r.e}); return v; }
// the cautious condition documented for the update
bool cautious(Drv &D, const Mx &x, const Mx &s, const Mx &y, const Mx &xk, const Mx &gk, double n0)
{
    double sy = D.S->ip(x, s, y), ss = D.S->ip(x, s, s), ng = std::sqrt(D.S->ip(xk, gk, gk)), eps = std::numeric_limits<double>::epsilon();
    return sy / ss >= 1e-4 * ng && (ng / n0 < 1e-3 || (ss > eps && sy > eps));
}
Mx bfgs(Drv &D, const Mx &x, const Mx &H, const Mx &s, const Mx &y)
{
    double rho = 1 / D.S->ip(x, s, y); Mx V = Mx::eye(D.n) - rho * D.S->tensor(x, s, y), W = Mx::eye(D.n) - rho * D.S->tensor(x, y, s); return V * H * W + rho * D.S->tensor(x, s, s);
}
struct QO { int kd, it, set, sy; double mw, beta, k; int mode; };   // mode: 1 isconvex, 2 initial H given; LRBFGS: memory + 10 * restart + 100 * preconditioner
void qn_dense(QO o)
{
    int n = 2; Drv D(o.kd, n, o.it, .5, o.k); Space &S = *D.S; S.mw = o.mw; S.beta = o.beta; D.fixed(STEP); D.C->grad = gl(o.set, o.sy, n); Mx H = Mx::eye(n);
    if (o.mode == 2) { H = Mx::lit(2, 2, {2, .5, .5, 1}); LinearOPE L = toE(H); if (o.kd == BFGS) ((RBFGS *)D.A.get())->SetProbX(D.C.get(), &D.x0, &L); else if (o.kd == RWB) ((RWRBFGS *)D.A.get())->SetProbX(D.C.get(), &D.x0, &L); else ((RBroydenFamily *)D.A.get())->SetProbX(D.C.get(), &D.x0, &L); }
    if (o.mode == 1) { if (o.kd == BFGS) ((RBFGS *)D.A.get())->isconvex = true; else if (o.kd == RWB) ((RWRBFGS *)D.A.get())->isconvex = true; else ((RBroydenFamily *)D.A.get())->isconvex = true; }
    D.run(); std::vector<It> v = its(D); sym_true((int)v.size() == o.it, "one step per iteration"); double n0 = std::sqrt(S.ip(v[0].x, v[0].g, v[0].g));
    for (int k = 0; k < (int)v.size(); k++)
    {
        It &i = v[k]; eqM(i.d, -1. * (H * i.g), k ? "search direction of the updated approximation" : "first search direction");
        Mx s, y, T = S.T(i.x, i.y), Ti = S.Ti(i.x, i.y), x = i.y; bool wen = o.kd == RWB;
        if (wen) { x = i.x; s = i.e; y = S.cot(i.x, i.e, i.y, i.g1) - i.g; } else { s = S.tr(i.x, i.y, i.e); y = (1 / S.beta) * i.g1 - S.tr(i.x, i.y, i.g); H = T * H * Ti; }
        double sy = S.ip(x, s, y); if (o.mode == 1 && k == 0 && sy > 0) H = (sy / S.ip(x, y, y)) * Mx::eye(n);
        if (cautious(D, x, s, y, i.x, i.g, n0)) { H = bfgs(D, x, H, s, y); sym_reach(sym_fmt("update%d", k).c_str()); if (!wen) eqM(H * y, s, "reference satisfies the secant equation"); } else sym_reach(sym_fmt("skip%d", k).c_str());
        if (wen) H = T * H * Ti;
    }
    LinearOPE &L = o.kd == BFGS ? ((RBFGS *)D.A.get())->H : o.kd == RWB ? ((RWRBFGS *)D.A.get())->H : ((RBroydenFamily *)D.A.get())->H; eqM(toM(L), H, "approximation of the inverse Hessian after the last update"); D.ls().GetSearchDir(); eqM(rd(D.ls().eta1), -1. * (H * v.back().g1), "search direction of the updated approximation");
}
void qn_lbfgs(QO o)
{
    int n = 2, m = o.mode % 10; Drv D(LBFGS, n, o.it, .5); Space &S = *D.S; S.mw = o.mw; S.beta = o.beta; D.fixed(STEP); D.C->grad = gl(o.set, o.sy, n); LRBFGS &A = *(LRBFGS *)D.A.get(); A.LengthSY = m; A.LMrestart = o.mode / 10 % 10;
    Mx P = Mx::eye(n); if (o.mode >= 100) { P = Mx::lit(2, 2, {2, .5, .5, 1}); D.C->hasp = true; D.C->prec = P; }
    D.run(); std::vector<It> v = its(D); sym_true((int)v.size() == o.it, "one step per iteration"); double n0 = std::sqrt(S.ip(v[0].x, v[0].g, v[0].g)), gam = 1; std::vector<Mx> Ss, Ys; double rho;
    for (int k = 0; k < (int)v.size(); k++)
    {
        It &i = v[k]; Mx H = gam * P; for (size_t j = 0; j < Ss.size(); j++) H = bfgs(D, i.x, H, Ss[j], Ys[j]); (void)rho;
        eqM(i.d, -1. * (H * i.g), k ? "search direction of the stored pairs" : "first search direction");
        Mx s = S.tr(i.x, i.y, i.e), y = (1 / S.beta) * i.g1 - S.tr(i.x, i.y, i.g); for (auto &z : Ss) z = S.tr(i.x, i.y, z); for (auto &z : Ys) z = S.tr(i.x, i.y, z);
        if (cautious(D, i.y, s, y, i.x, i.g, n0))
        {
            gam = S.ip(i.y, s, y) / S.ip(i.y, y, P * y); if (A.LMrestart && (int)Ss.size() >= m) { Ss.clear(); Ys.clear(); }
            if (m > 0) { Ss.push_back(s); Ys.push_back(y); if ((int)Ss.size() > m) { Ss.erase(Ss.begin()); Ys.erase(Ys.begin()); } } sym_reach(sym_fmt("update%d", k).c_str());
        }
        else sym_reach(sym_fmt("skip%d", k).c_str());
    }
    It &i = v.back(); Mx H = gam * P; for (size_t j = 0; j < Ss.size(); j++) H = bfgs(D, i.y, H, Ss[j], Ys[j]); A.GetSearchDir(); eqM(rd(A.eta1), -1. * (H * i.g1), "search direction of the stored pairs");
}
// symmetric rank one: iterations with given steps; the approximation satisfies the secant equation of the last pair, is symmetric
// and is the one the formula gives. mode (LRTRSR1): memory + 10 * restart
void qn_sr1(QO o)
{
    int n = 2, m = o.mode % 10; Drv D(o.kd, n, 0, .5); Space &S = *D.S; S.mw = o.mw; D.C->distinct = true; D.C->grad = gl(o.set, o.sy, n); D.C->val = [](int i) { return -10. * i; }; SolversSMTR &A = D.tr(); LRTRSR1 *L = o.kd == LSR1 ? (LRTRSR1 *)D.A.get() : nullptr; RTRSR1 *R = L ? nullptr : (RTRSR1 *)D.A.get(); if (L) { L->LengthSY = m; L->LMrestart = o.mode / 10; } D.run();
    static const double E[4][2] = {{-.5, -.75}, {.25, -.5}, {.5, .125}, {-.25, .375}}; std::vector<Mx> Ss, Ys; Mx B = Mx::eye(n); sym_div0_assume(true);
    auto rep = [&] { A.InitialVector(); if (L) { S.thr = true; sym_qr_throw(true); try { A.tCG_TR(); } catch (int) { } S.thr = false; sym_qr_throw(false); } };   // up to the first inner product: the matrices of the compact representation
    for (int k = 0; k < o.it; k++)
    {
        Mx e(n), x = rd(A.x1); for (int a = 0; a < n; a++) e(a) = E[k][a]; rep(); A.eta2 = D.S->GetEMPTY(); Space::out(e, &A.eta2); D.S->Retraction(A.x1, A.eta2, &A.x2); A.HessianEta(A.eta2, &A.Heta2); A.UpdateData(); A.Acceptence(); Mx y = rd(A.x2), g = D.C->G(D.C->at(x)), g1 = D.C->G(D.C->at(y)), T = S.T(x, y), Ti = S.Ti(x, y), z = Ti * g1 - g;
        bool upd = L ? L->isupdated : R->isupdated; Ss.push_back(e); Ys.push_back(z); if (!upd) { Ss.pop_back(); Ys.pop_back(); sym_reach("skip"); } else sym_reach("update");
        if (L) { if (upd && (int)Ss.size() > m) { if (L->LMrestart) { Ss.erase(Ss.begin(), Ss.end() - 1); Ys.erase(Ys.begin(), Ys.end() - 1); } else { Ss.erase(Ss.begin()); Ys.erase(Ys.begin()); } } }
        else { if (k == 1) { double sy = S.ip(x, e, z); if (sy != 0) B = (S.ip(x, z, z) / sy) * Mx::eye(n); } if (upd) { Mx u = z - B * e; B = B + (1 / S.ip(x, u, e)) * S.tensor(x, u, u); } B = T * B * Ti; }
        for (auto &v : Ss) v = S.tr(x, y, v); for (auto &v : Ys) v = S.tr(x, y, v);
        Variable t = A.x1; A.x1 = A.x2; A.x2 = t; Vector g_ = A.gf1; A.gf1 = A.gf2; A.gf2 = g_; A.ngf2 = A.ngf1 = std::sqrt(S.ip(y, g1, g1)); A.iter++;
        if (L) { B = L->gamma * Mx::eye(n); for (size_t j = 0; j < Ss.size(); j++) { Mx u = Ys[j] - B * Ss[j]; B = B + (1 / S.ip(y, u, Ss[j])) * S.tensor(y, u, u); } }
        if (k == o.it - 1)
        {
            rep(); auto H = [&](const Mx &v) { Vector a = D.S->GetEMPTY(), b = a; Space::out(v, &a); A.HessianEta(a, &b); return rd(b); }; Mx h0 = H(Mx::lit(2, 1, {1, 0})), h1 = H(Mx::lit(2, 1, {0, 1})); Mx X = rd(A.x1); sym_eq(S.ip(X, h0, Mx::lit(2, 1, {0, 1})), S.ip(X, h1, Mx::lit(2, 1, {1, 0})), "approximation symmetric");
            if (upd && !(L && m == 0)) eqM(H(Ss.back()), Ys.back(), "approximation maps the step to the change of the gradient"); eqM(h0, B.col(0), "approximation, first column"); eqM(h1, B.col(1), "approximation, second column");
        }
    }
}
// ---- search directions
void dir_sd()
{
    Drv D(SD, 2, 1); D.fixed(STEP); D.C->grad = gl(0, 0, 2); D.C->hasp = true; Mx P(2, 2); P(0, 0) = sym_real("p00"); P(1, 1) = sym_real("p11"); P(0, 1) = P(1, 0) = sym_real("p01"); D.C->prec = P; Mx g = D.C->G(D.C->at(rd(D.x0))); double gg = dot(g, g); sym_assume_lt(0, gg); D.run(); std::vector<It> v = its(D);
    Mx d = -1. * (P * g); if (dot(d, g) / gg >= -std::sqrt(std::numeric_limits<double>::epsilon())) { d = -1. * g; sym_reach("reset"); } else sym_reach("prec"); eqM(v[0].d, d, "preconditioned steepest descent direction"); sym_lt(dot(v[0].d, g), 0, "descent direction");
}
void dir_cg(int meth, int it, int set, int sy, double mw, bool prec = false)
{
    int n = 2; Drv D(CG, n, it, prec ? 0 : .5); Space &S = *D.S; S.mw = mw; D.fixed(STEP); Mx W = Mx::eye(n); if (prec) { W = Mx::lit(2, 2, {2, 0, 0, 1}); D.C->hasp = true; D.C->prec = W; } D.C->grad = gl(set, sy, n); ((RCG *)D.A.get())->RCGmethod = (RCGmethods)meth; sym_div0_assume(true); D.run(); std::vector<It> v = its(D); Mx d;
    for (size_t k = 0; k < v.size(); k++)
    {
        It &i = v[k]; double gg = S.ip(i.x, i.g, i.g); if (k == 0 || S.ip(i.x, d, i.g) / gg >= -std::sqrt(std::numeric_limits<double>::epsilon())) { d = -1. * (W * i.g); if (S.ip(i.x, d, i.g) / gg >= -std::sqrt(std::numeric_limits<double>::epsilon())) d = -1. * i.g; if (k) sym_reach("reset"); }
        eqM(i.d, d, k ? "conjugate gradient direction" : "first direction"); sym_lt(S.ip(i.x, i.d, i.g), 0, "descent direction");
        Mx Tg = S.tr(i.x, i.y, i.g), Td = S.tr(i.x, i.y, d), y = i.g1 - Tg; auto P = [&](const Mx &a, const Mx &b) { return S.ip(i.y, a, b); }; Mx w = W * i.g1; double s = 0, g1 = P(i.g1, w), g0 = S.ip(i.x, i.g, W * i.g);
        if (!(std::fabs(P(i.g1, Tg)) / gg > .1))
        {
            sym_reach("conjugate"); double fr = g1 / g0, pr = P(w, y) / g0;
            switch (meth) { case FLETCHER_REEVES: s = fr; break; case POLAK_RIBIERE_MOD: s = pr < 0 ? 0 : pr; break; case HESTENES_STIEFEL: s = P(w, y) / P(y, Td); break; case FR_PR: s = pr < -fr ? -fr : pr > fr ? fr : pr; break; case DAI_YUAN: s = g1 / P(y, Td); break;
                case HAGER_ZHANG: { double yd = P(y, Td); s = (P(y, w) - 2 * P(y, y) / yd * P(Td, w)) / yd; } }
        }
        else sym_reach("restart");
        d = s * Td - w;
    }
    It &i = v.back(); if (S.ip(i.y, d, i.g1) / S.ip(i.y, i.g1, i.g1) >= -std::sqrt(std::numeric_limits<double>::epsilon())) { d = -1. * (W * i.g1); if (S.ip(i.y, d, i.g1) / S.ip(i.y, i.g1, i.g1) >= -std::sqrt(std::numeric_limits<double>::epsilon())) d = -1. * i.g1; sym_reach("reset"); } D.ls().GetSearchDir(); eqM(rd(D.ls().eta1), d, "conjugate gradient direction"); sym_lt(S.ip(i.y, rd(D.ls().eta1), i.g1), 0, "descent direction");
}
// truncated conjugate gradients: the direction solves the Newton equation when the Hessian is positive definite and the tolerance is zero
void dir_newton(int n)
{
    Drv D(NEWTON, n, 1); D.fixed(STEP); RNewton &A = *(RNewton *)D.A.get(); A.theta = 1; A.kappa = 0; D.C->grad = [n](int) { Mx g(n); g(0) = 1; if (n > 1) g(1) = .5; return g; }; Mx H(n, n); for (int a = 0; a < n; a++) for (int b = a; b < n; b++) H(a, b) = H(b, a) = sym_real(sym_fmt("h%d%d", a, b).c_str());
    sym_assume_lt(0, H(0, 0)); if (n > 1) sym_assume_lt(0, H(0, 0) * H(1, 1) - H(0, 1) * H(0, 1)); for (auto h : H.a) { sym_assume_le(h, 4); sym_assume_le(-4, h); } D.C->hess = [H](int) { return H; }; A.Max_Inner_Iter = n; D.run(); std::vector<It> v = its(D); eqM(H * v[0].d, -1. * D.C->G(0), "Newton direction"); sym_reach("newton");
}
void dir_newton_any(int n)   // whatever the Hessian: a descent direction
{
    Drv D(NEWTON, n, 1); D.fixed(STEP); D.C->grad = [n](int) { Mx g(n); g(0) = 1; if (n > 1) g(1) = .5; return g; }; D.run(); std::vector<It> v = its(D); sym_lt(dot(v[0].d, D.C->G(0)), 0, "descent direction"); sym_reach("newton");
}
// ---- initial step sizes of the second iteration
void init_step(int type, double ratio, int npre, int it, int set, int sy, double mw)
{
    int n = 2; Drv D(SD, n, it, .5); Space &S = *D.S; S.mw = mw; SolversSMLS &A = D.ls(); A.InitSteptype = (InitStepsizeSetSM)type; A.Initstepsize = STEP; A.BBratio = ratio; A.Num_pre_BB = npre; A.Accuracy = A.PreFunsAccuracy = 1e300; A.Finalstepsize = -1; D.C->distinct = true; D.C->grad = gl(set, sy, n);
    D.C->val = [sy, type, ratio, npre](int i) { return (type == LSSM_BBSTEP || type == LSSM_EXTRBBSTEP) && (npre || ratio != 1) ? -10. * i : sym_real(sym_fmt("f%d", i).c_str()); }; sym_div0_assume(true); D.run(); const realdp *ts = A.GetSolverInfo().Field("initialstepsize").ObtainReadData(); std::vector<RCall> &R = S.R; std::vector<double> bbs; const double eps = std::numeric_limits<double>::epsilon();
    A.GetSearchDir(); A.InitialStepSize(); double last = A.stepsize; R.push_back({rd(A.x1), Mx(n), Mx(n)});
    for (size_t k = 0; k < R.size(); k++)
    {
        Mx g = D.C->G(D.C->at(R[k].x)); double t = k + 1 < R.size() ? ts[k + 1] : last; if (k + 1 < R.size()) eqM(R[k].e, -t * g, "step"); if (k == 0) { sym_eq(t, STEP, "first step size"); continue; }
        Mx g0 = D.C->G(D.C->at(R[k - 1].x)); double q = 2 * (D.C->F(D.C->at(R[k].x)) - D.C->F(D.C->at(R[k - 1].x))) / -S.ip(R[k - 1].x, g0, g0), ng = std::sqrt(S.ip(R[k].x, g, g)), want = 1;
        if (type == LSSM_QUADINT) want = q; else if (type == LSSM_QUADINTMOD) { want = 1.01 * q; if (want > 1) want = 1; }
        else if (type == LSSM_BBSTEP || type == LSSM_EXTRBBSTEP)
        {
            // the extrinsic form takes plain differences of points and gradients
            bool ex = type == LSSM_EXTRBBSTEP; Mx s = ex ? R[k].x - R[k - 1].x : S.tr(R[k - 1].x, R[k].x, R[k - 1].e), y = g - (ex ? g0 : S.tr(R[k - 1].x, R[k].x, g0)); double ss = S.ip(R[k].x, s, s), sy = S.ip(R[k].x, s, y), yy = S.ip(R[k].x, y, y), b1 = ss / sy, b2 = sy / yy; bbs.push_back(b2 < eps ? STEP / ng : b2);
            if (ratio == 0) want = b1; else if (ratio == 1 && npre == 0) want = b2; else { double mn = b2; for (int j = 0; j < npre && j < (int)bbs.size(); j++) { double b = bbs[bbs.size() - 1 - j]; if (b < mn) mn = b; } want = mn / b1 < ratio ? mn : b1; }
        }
        if (want < q / 100) { want = q; sym_reach("safeguard"); } if (want < eps) { want = STEP / ng; sym_reach("tiny"); } else sym_reach("step"); sym_eq(t, want, "initial step size");
    }
}
// ---- running a solver again after setting the initial iterate again repeats the run
void rerun(int kd, int it, int bb)
{
    int n = kd >= NLS && kd != LSR1 ? 1 : 2; if (kd == LSR1) it = 1; Drv D(kd, n, it, .5); if (kd < NLS) { D.fixed(STEP); if (bb) { D.ls().InitSteptype = LSSM_BBSTEP; D.ls().BBratio = .5; D.ls().Num_pre_BB = 3; D.ls().Finalstepsize = -1; } } D.C->distinct = true; D.C->grad = gl(1, 2, n); D.C->val = [](int i) { return -10. * i; }; D.C->hess = [n](int) { if (n == 1) return Mx::lit(1, 1, {2}); return Mx::lit(2, 2, {2, .5, .5, 1}); };
    sym_div0_assume(true); D.run(); std::vector<RCall> R = D.S->R; Mx x = rd(D.A->GetXopt()); double f = D.A->Getfinalfun(); int itn = D.A->GetIter(); D.S->R.clear(); Variable x0 = D.x0;
    switch (kd) { case BFGS: ((RBFGS *)D.A.get())->SetProbX(D.C.get(), &x0, nullptr); break; case RWB: ((RWRBFGS *)D.A.get())->SetProbX(D.C.get(), &x0, nullptr); break; case BROY: ((RBroydenFamily *)D.A.get())->SetProbX(D.C.get(), &x0, nullptr); break; case SR1: ((RTRSR1 *)D.A.get())->SetProbX(D.C.get(), &x0, nullptr); break; default: D.A->SetProbX(D.C.get(), &x0); }
    D.run(); sym_true(R.size() == D.S->R.size(), "same number of steps"); sym_true(D.A->GetIter() == itn, "same number of iterations"); if (R.size() != D.S->R.size()) return; for (size_t k = 0; k < R.size(); k++) { eqM(D.S->R[k].x, R[k].x, "iterates repeat"); eqM(D.S->R[k].e, R[k].e, "steps repeat"); } eqM(rd(D.A->GetXopt()), x, "same optimizer"); sym_eq(D.A->Getfinalfun(), f, "same function value"); sym_reach("rerun");
}
struct Init
{
    Init()
    {
        for (int k = 0; k < NLS; k++)
        {
            sym_register_case(sym_fmt("rep_fix_%s", KN[k]), [k] { rep_fixed(k, 2, 2); }, 0);
            sym_register_case(sym_fmt("rep_arm_%s", KN[k]), [k] { rep_ls(k, LSSM_ARMIJO, 2, k == NEWTON ? 2 : 3, 0, k != NEWTON); }, 0); if (k == NEWTON) sym_register_case("rep_arm_all_rnewton", [k] { rep_ls(k, LSSM_ARMIJO, 2, 3, 0); }, 1);
            sym_register_case(sym_fmt("rep_wol_%s", KN[k]), [k] { rep_ls(k, LSSM_WOLFE, 2, 2, 0); }, k == SD ? 0 : 1);
            sym_register_case(sym_fmt("rep_str_%s", KN[k]), [k] { rep_ls(k, LSSM_STRONGWOLFE, 2, 2, 0); }, k == SD ? 0 : 1);
        }
        for (int k = 0; k < NALL; k++) if (k < NLS || k == TRN) sym_register_case(sym_fmt("rep_nan_%s", KN[k]), [k] { rep_nan(k); }, k == SD || k == TRN ? 0 : 1);
        struct SC { const char *nm; int k, crit, mn, mx; bool usr; int tier; }; static const SC L[] = {{"fun", SD, SM_FUN_REL, 0, 2, false}, {"fun3", SD, SM_FUN_REL, 0, 3, false, 1}, {"grad5", SD, SM_GRAD_F, 1, 5, false, 1}, {"grad", SD, SM_GRAD_F, 0, 3, false}, {"grad0", SD, SM_GRAD_F_0, 0, 3, false}, {"min", SD, SM_GRAD_F, 2, 3, false}, {"minfun", SD, SM_FUN_REL, 1, 2, false}, {"usr", SD, SM_GRAD_F, 0, 4, true}, {"usrmin", SD, SM_GRAD_F, 2, 4, true}, {"max0", SD, SM_GRAD_F, 0, 0, false},
            {"cg", CG, SM_GRAD_F, 0, 3, false}, {"bfgs", BFGS, SM_GRAD_F, 0, 3, false}, {"lbfgs", LBFGS, SM_GRAD_F_0, 1, 3, false}, {"newton", NEWTON, SM_GRAD_F, 0, 2, false}};
        for (auto &v : L) { SC w = v; sym_register_case(sym_fmt("stop_%s", v.nm), [w] { stop_case(w.k, w.crit, w.mn, w.mx, w.usr); }, v.tier); }
        sym_register_case("tr_step1", [] { tr_step(1, 1000, .1, 1); }); sym_register_case("tr_step2_1", [] { tr_step(2, 1, .1, 1); }); sym_register_case("tr_step2", [] { tr_step(2, 1000, 0.125, 1, false); }, 1); sym_register_case("tr_step2d", [] { tr_step(2, 1000, 0.125, 1, false, .5); }); sym_register_case("tr_step2b", [] { tr_step(2, 1000, 0.125, 1, false, 2, 1); }); sym_register_case("tr_step2p", [] { tr_step(2, 1000, 0.125, 1, false, 2, 1, true); }, 1); sym_register_case("tr_step2p1", [] { tr_step(2, 1, 0.125, 1, false, 2, 1, true); }); sym_register_case("tr_step2g", [] { tr_step(2, 1000, 0.125, 1); }, 1);
        sym_register_case("tr_step2t", [] { tr_step(2, 1000, .5, 0); }, 1);
        sym_register_case("tr_acc_sd", [] { tr_accept(TRSD, 2, 1); }); sym_register_case("tr_acc_n", [] { tr_accept(TRN, 2, 1, false); }); sym_register_case("tr_acc_nc3", [] { tr_accept(TRN, 3, 1, false); }, 1); sym_register_case("tr_acc_ng", [] { tr_accept(TRN, 2, 1); }, 1); sym_register_case("tr_acc_sd3", [] { tr_accept(TRSD, 3, 1); }, 1); sym_register_case("tr_acc_n3", [] { tr_accept(TRN, 3, 1); }, 1);
        for (int k = NLS; k < NALL; k++) { sym_register_case(sym_fmt("rep_%s", KN[k]), [k] { rep_tr(k, 2, k == TRSD); }, 0); if (k != TRSD) sym_register_case(sym_fmt("rep_all_%s", KN[k]), [k] { rep_tr(k, 2, true); }, 1); }
        struct QC { const char *nm; QO o; int tier; }; static const QC Q[] = {
            // kind, iterations, gradient set, symbolic gradients, metric, beta, retraction, mode
            {"bfgs1", {BFGS, 1, 0, 2, 0, 1, 0, 0}}, {"bfgs2", {BFGS, 2, 0, 4, .25, 2, 0, 0}}, {"bfgs_h0", {BFGS, 1, 1, 2, 0, 1, 0, 2}}, {"bfgs_conv", {BFGS, 1, 1, 2, .25, 1, 0, 1}}, {"bfgs3", {BFGS, 3, 1, 8, .25, .5, .125, 0}, 1}, {"bfgs12", {BFGS, 1, 0, 3, 0, 1, 0, 0}, 1},
            {"broy1", {BROY, 1, 0, 2, 0, 1, 0, 0}}, {"broy2", {BROY, 2, 0, 4, .25, 2, 0, 0}}, {"broy_h0", {BROY, 1, 1, 2, 0, 1, 0, 2}}, {"broy_conv", {BROY, 1, 1, 2, .25, 1, 0, 1}},
            {"rwb1", {RWB, 1, 0, 2, 0, 1, 0, 0}}, {"rwb2", {RWB, 2, 0, 4, .25, 2, .25, 0}}, {"rwb_h0", {RWB, 1, 1, 2, 0, 1, .25, 2}}, {"rwb_conv", {RWB, 1, 1, 2, .25, 1, 0, 1}}};
        for (auto &q : Q) { QO o = q.o; sym_register_case(sym_fmt("qn_%s", q.nm), [o] { qn_dense(o); }, q.tier); }
        static const QC QL[] = {{"1", {LBFGS, 1, 0, 2, 0, 1, 0, 4}}, {"m0", {LBFGS, 2, 0, 4, 0, 1, 0, 0}}, {"m1", {LBFGS, 2, 0, 4, .25, 2, 0, 1}}, {"m2", {LBFGS, 3, 1, 8, .25, .5, 0, 2}}, {"m2r", {LBFGS, 3, 1, 8, .25, 1, 0, 12}}, {"m2p", {LBFGS, 2, 1, 4, 0, 1, 0, 102}}, {"m3", {LBFGS, 4, 1, 16, 0, 1, 0, 3}}, {"m3r", {LBFGS, 4, 1, 16, .25, 1, 0, 13}, 1}, {"m2mid", {LBFGS, 3, 1, 4, 0, 1, 0, 2}, 1}, {"m4", {LBFGS, 4, 2, 16, .25, 2, 0, 4}, 1}};
        for (auto &q : QL) { QO o = q.o; sym_register_case(sym_fmt("qn_lbfgs_%s", q.nm), [o] { qn_lbfgs(o); }, q.tier); }
        static const QC QS[] = {{"sr1_1", {SR1, 1, 0, 2, .25, 1, 0, 0}}, {"sr1_2", {SR1, 2, 0, 4, .25, 1, 0, 0}}, {"sr1_3", {SR1, 3, 2, 8, .25, 1, 0, 0}}, {"sr1_12", {SR1, 2, 2, 6, 0, 1, 0, 0}, 1}, {"lsr1_1", {LSR1, 1, 0, 2, .25, 1, 0, 4}}, {"lsr1_2", {LSR1, 2, 0, 4, .25, 1, 0, 4}}, {"lsr1_m1", {LSR1, 2, 1, 4, .25, 1, 0, 1}}, {"lsr1_m1r", {LSR1, 2, 1, 4, .25, 1, 0, 11}}, {"lsr1_m2", {LSR1, 3, 2, 8, .25, 1, 0, 2}}, {"lsr1_m2r", {LSR1, 3, 2, 8, .25, 1, 0, 12}}, {"lsr1_m24", {LSR1, 4, 2, 16, 0, 1, 0, 2}}, {"lsr1_m0", {LSR1, 2, 2, 4, 0, 1, 0, 0}}};
        for (auto &q : QS) { QO o = q.o; sym_register_case(sym_fmt("qn_%s", q.nm), [o] { qn_sr1(o); }, q.tier); }
        sym_register_case("dir_sd", dir_sd); static const char *CGN[] = {"fr", "prm", "hs", "frpr", "dy", "hz"}; for (int m = 0; m < 6; m++) { sym_register_case(sym_fmt("dir_cg_%s", CGN[m]), [m] { dir_cg(m, 1, 2, 2, .25); }); sym_register_case(sym_fmt("dir_cgp_%s", CGN[m]), [m] { dir_cg(m, 1, 2, 2, 0, true); }); sym_register_case(sym_fmt("dir_cg3_%s", CGN[m]), [m] { dir_cg(m, 2, 2, 4, .25); }); sym_register_case(sym_fmt("dir_cg0_%s", CGN[m]), [m] { dir_cg(m, 1, 2, 3, 0); }, 1); }
        sym_register_case("dir_newton1", [] { dir_newton(1); }); sym_register_case("dir_newton2", [] { dir_newton(2); }); sym_register_case("dir_newton_any1", [] { dir_newton_any(1); }); sym_register_case("dir_newton_any2", [] { dir_newton_any(2); });
        sym_register_case("init_one", [] { init_step(LSSM_ONESTEP, 0, 0, 1, 2, 0, .25); }); sym_register_case("init_quad", [] { init_step(LSSM_QUADINT, 0, 0, 2, 2, 4, .25); }); sym_register_case("init_quadmod", [] { init_step(LSSM_QUADINTMOD, 0, 0, 2, 2, 4, .25); });
        sym_register_case("init_bb1", [] { init_step(LSSM_BBSTEP, 0, 0, 1, 0, 2, .25); }); sym_register_case("init_xbb1", [] { init_step(LSSM_EXTRBBSTEP, 0, 0, 1, 0, 2, 0); }); sym_register_case("init_xbb2", [] { init_step(LSSM_EXTRBBSTEP, 1, 0, 1, 0, 2, 0); }); sym_register_case("init_xabb", [] { init_step(LSSM_EXTRBBSTEP, .5, 0, 1, 0, 2, 0); }); sym_register_case("init_xabbmin", [] { init_step(LSSM_EXTRBBSTEP, .5, 2, 2, 0, 4, 0); }); sym_register_case("init_bb2", [] { init_step(LSSM_BBSTEP, 1, 0, 1, 0, 2, .25); }); sym_register_case("init_abb", [] { init_step(LSSM_BBSTEP, .5, 0, 1, 0, 2, .25); }); sym_register_case("init_abbmin", [] { init_step(LSSM_BBSTEP, .5, 2, 2, 0, 4, .25); }); sym_register_case("init_abbmin4", [] { init_step(LSSM_BBSTEP, .5, 2, 3, 0, 8, .25); }, 1);
        for (int k = 0; k < NALL; k++) sym_register_case(sym_fmt("rerun_%s", KN[k]), [k] { rerun(k, 2, 0); }); sym_register_case("rerun_bb", [] { rerun(SD, 2, 1); });
    }
} init_; }
