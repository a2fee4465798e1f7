// Line-search solvers: line search conditions (ls_), agreement of everything reported with the cost function (rep_),
// descent (mono_), stopping (stop_), search directions of each method (dir_).
#include "sol.h"
#include "Solvers/RSD.h"
namespace {
typedef std::vector<Mx> Ms;
struct Set { std::string nm; std::function<void()> fn; };
void reg2(const std::string &nm, std::function<void()> fn, int tier = 0) { sym_register_case(nm, fn, tier); }
// one line search along an arbitrary descent direction in R^1
struct LS1
{
    std::shared_ptr<Space> S; std::shared_ptr<Cost> C; std::shared_ptr<RSD> A; Variable x0; double p;
    // kind: the initial step is 1 and the slope is -1 (every other case is a rescaling of this one), or both arbitrary
    // cap: trial points in all, capi: those at an interpolated step (negative: none, and no step below the first)
    LS1(int alg, double k, int cap, int capi, bool scaled)
    {
        S = std::make_shared<Space>(1, k); S->cap = cap; std::shared_ptr<int> ni(new int(0)); if (scaled) S->onR = [ni, capi](const Mx &, const Mx &e) { if (!sym_isconst(e(0)) ? ++*ni > std::max(capi, 0) : capi < 0 && e(0) > -1) sym_stop(); }; C = std::make_shared<Cost>(S.get()); p = scaled ? 1 : sym_pos("p"); C->hasp = true; C->prec = Mx(1, 1); C->prec(0, 0) = p;
        x0 = S->GetEMPTY(); x0.ObtainWriteEntireData()[0] = 0; A = std::make_shared<RSD>(C.get(), &x0); A->StopPtr = never;
        A->LineSearch_LS = (LSAlgoSM)alg; A->Max_Iteration = 1; A->Accuracy = 0; A->OutputGap = 100; A->Initstepsize = scaled ? 1 : sym_pos("t0"); A->Verbose = ITERRESULT;
        if (scaled && capi <= 0) { A->LS_alpha = sym_real("alpha", 0, .5); A->LS_beta = sym_real("beta", 0, 1); sym_assume_lt(0, A->LS_alpha); sym_assume_lt(A->LS_alpha, A->LS_beta); sym_assume_lt(A->LS_beta, 1); }
        else { A->LS_alpha = .125; A->LS_beta = .5; }
        C->grad = [](int i) { Mx g(1); if (i == 0) g(0) = 1; else g(0) = sym_real(sym_fmt("g%d", i).c_str()); return g; };
        sym_assume_lt(1e-7, p); f0 = C->F(C->at(rd(x0)));
    }
    double f0; static bool never(const Variable &, const Vector &, integer, realdp, realdp, const Problem *, const Solvers *) { return false; }
};
// npre: number of remembered values of the non-monotone search
void ls_case(int alg, double k, int cap, int capi, double r1, double r2, bool scaled, double minstep, double maxstep)
{
    LS1 T(alg, k, cap, capi, scaled); T.A->LS_ratio1 = r1; T.A->LS_ratio2 = r2; T.A->Minstepsize = minstep; T.A->Maxstepsize = maxstep; T.A->Run();
    RSD &A = *T.A; Cost &C = *T.C; Space &S = *T.S; sym_reach("ran");
    double t = A.GetSolverInfo().Field("acceptedstepsize").ObtainReadData()[1]; Mx x = rd(A.GetXopt()), e = Mx(1); e(0) = -t * T.p;
    eqM(x, S.ret(rd(T.x0), e), "iterate is the retraction of the accepted step");
    int i = C.at(x); sym_eq(A.Getfinalfun(), C.F(i), "function value of the iterate"); double g = C.G(i)(0); sym_eq(A.Getnormgf(), std::fabs(g), "gradient norm of the iterate");
    double s0 = -T.p, s = g * (1 + 2 * S.k * e(0)) * s0, f0 = T.f0, f = C.F(i);
    if (A.LSstatus == LSSM_SUCCESS || A.LSstatus == LSSM_NOCURVATURE)
    {
        sym_lt(0, t, "step positive"); sym_le(f, f0 + A.LS_alpha * t * s0, "sufficient decrease");
        if (A.LSstatus == LSSM_SUCCESS && alg == LSSM_WOLFE) sym_le(A.LS_beta * s0, s, A.Getnf() > 12 ? "curvature condition after eleven doublings" : "curvature condition");
        if (A.LSstatus == LSSM_SUCCESS && alg == LSSM_STRONGWOLFE) sym_le(std::fabs(s), -A.LS_beta * s0, "strong curvature condition");
        sym_reach(A.LSstatus == LSSM_SUCCESS ? "success" : "nocurvature");
    }
    else sym_reach(sym_fmt("status%d", (int)A.LSstatus).c_str());
    sym_true(A.GetIter() == 1, "one iteration"); sym_true(A.Getnf() == C.nf && A.Getng() == C.ng && A.GetnR() == (int)S.R.size(), "counters");
}
// ---- non-monotone search: the largest of the last N values takes the place of the current one
void ls_nonmono(int N, int it, int cap, double acc, bool slope)
{
    Space S(1, 0); S.cap = cap; Cost C(&S); C.posg = true; C.distinct = true; C.grad = [slope](int i) { Mx g(1); g(0) = slope ? sym_real(sym_fmt("g%d", i).c_str(), -4, 4) : i % 2 ? -1 : 1; return g; };
    Variable x0 = S.GetEMPTY(); x0.ObtainWriteEntireData()[0] = 0; RSD A(&C, &x0); A.StopPtr = LS1::never; A.LineSearch_LS = LSSM_ARMIJO; A.Max_Iteration = it; A.Accuracy = 0; A.OutputGap = 100; A.Initstepsize = 1; A.InitSteptype = LSSM_ONESTEP; A.Verbose = ITERRESULT;
    A.LS_alpha = sym_real("alpha", 0, .5); sym_assume_lt(0, A.LS_alpha); A.LS_ratio1 = A.LS_ratio2 = .5; A.Num_pre_funs = N; A.PreFunsAccuracy = acc; A.Run();
    std::vector<int> at; std::vector<double> ts; const realdp *acp = A.GetSolverInfo().Field("acceptedstepsize").ObtainReadData(), *fs = A.GetfunSeries().ObtainReadData(); int n = A.GetIter(); sym_true(n == it, "all iterations");
    // the trials of the run, iteration by iteration: those starting at the same point
    size_t r = 0;
    for (int k = 0; k < n; k++)
    {
        Mx xk = S.R[r].x; int ik = C.at(xk); double gk = C.G(ik)(0), mx = C.F(ik), t = acp[k + 1]; at.push_back(ik);
        for (int j = 1; j < (acc > 0 ? N : 1) && j <= k; j++) { double v = C.F(at[k - j]); if (v > mx) { mx = v; sym_reach("larger earlier value"); } }
        size_t e = r; while (e < S.R.size() && C.eq(S.R[e].x, xk)) e++;
        Mx d(1); d(0) = -t * gk; eqM(S.R[e - 1].e, d, "the accepted step is the last one tried"); double fn = C.F(C.at(S.R[e - 1].y)); sym_eq(fs[k + 1], fn, "recorded value"); sym_le(fn, mx - A.LS_alpha * t * gk * gk, "decrease relative to the remembered values");
        if (acc == 0 || acc > 1e200 && k >= N) for (size_t j = r; j + 1 < e; j++) { double tj = -S.R[j].e(0) / gk; sym_lt(mx - A.LS_alpha * tj * gk * gk, C.F(C.at(S.R[j].y)), "a step that decreases enough is not rejected"); }
        r = e;
    }
    sym_true(r == S.R.size(), "no other trials"); sym_true(A.Getnf() == C.nf && A.Getng() == C.ng && A.GetnR() == (int)S.R.size(), "counters"); sym_reach("ran");
}
// ---- line search of the user
struct UArg { int it; double t, sl; Mx x, d; const void *p, *s; }; std::vector<UArg> UA; double Ut[4];
realdp ufun(integer it, const Variable &x, const Vector &d, realdp t, realdp sl, const Problem *p, const Solvers *s) { UA.push_back({(int)it, t, sl, rd(x), rd(d), p, s}); return Ut[std::min<size_t>(UA.size() - 1, 3)]; }
void ls_user(bool pure, double k, int it, int cap)
{
    UA.clear(); for (int i = 0; i < 4; i++) Ut[i] = sym_real(sym_fmt("u%d", i).c_str(), -8, 8);
    Space S(1, k); S.cap = cap; Cost C(&S); C.posg = true; C.distinct = true; C.grad = [](int i) { Mx g(1); g(0) = i == 0 ? 2 : i == 1 ? -1 : i == 2 ? .5 : 1.5; return g; };
    Variable x0 = S.GetEMPTY(); x0.ObtainWriteEntireData()[0] = 0; RSD A(&C, &x0); A.StopPtr = LS1::never; A.LineSearch_LS = LSSM_INPUTFUN; A.LinesearchInput = ufun; A.IsPureLSInput = pure; A.Max_Iteration = it; A.Accuracy = 0; A.OutputGap = 100; A.Initstepsize = sym_pos("t0"); A.InitSteptype = LSSM_ONESTEP; A.Verbose = ITERRESULT; sym_assume_lt(1e-7, A.Initstepsize); sym_assume_le(A.Initstepsize, 100);
    A.LS_alpha = .125; A.LS_ratio1 = A.LS_ratio2 = .5; A.Minstepsize = 1e-300; A.Run(); const realdp *acp = A.GetSolverInfo().Field("acceptedstepsize").ObtainReadData(), *ini = A.GetSolverInfo().Field("initialstepsize").ObtainReadData(), *fs = A.GetfunSeries().ObtainReadData(), *gs = A.GetgradSeries().ObtainReadData();
    sym_true((int)UA.size() == A.GetIter() && A.GetIter() == it, "called once per iteration"); size_t r = 0; Mx x = rd(x0);
    for (int j = 0; j < (int)UA.size(); j++)
    {
        int i = C.at(x); double g = C.G(i)(0); sym_true(UA[j].it == j && UA[j].p == &C && UA[j].s == &A, "arguments of the user's search"); eqM(UA[j].x, x, "iterate given to the user's search"); sym_eq(UA[j].d(0), -g, "direction given to the user's search"); sym_eq(UA[j].sl, -g * g, "slope given to the user's search"); sym_eq(UA[j].t, ini[j + 1], "initial step given to the user's search");
        double t = Ut[std::min(j, 3)]; bool tiny = t < std::numeric_limits<double>::epsilon(); if (tiny) { t = ini[j + 1]; sym_reach("initial step used"); } else sym_reach("the user's step used");
        double f0 = C.F(i); bool first = true; while (r < S.R.size() && C.eq(S.R[r].x, x)) { if (first) sym_eq(S.R[r].e(0), -t * g, "first trial is the user's step"); first = false; r++; }
        if (pure) sym_eq(acp[j + 1], t, "the user's step is taken"); else sym_le(fs[j + 1], f0 - .125 * acp[j + 1] * g * g, "sufficient decrease");
        Mx e(1); e(0) = -acp[j + 1] * g; x = S.ret(x, e); eqM(S.R[r - 1].y, x, "iterate is the retraction of the accepted step"); sym_eq(fs[j + 1], C.F(C.at(x)), "recorded value"); sym_eq(gs[j + 1], std::fabs(C.G(C.at(x))(0)), "recorded gradient norm");
    }
    eqM(rd(A.GetXopt()), x, "final iterate"); sym_true(r == S.R.size() && A.Getnf() == C.nf && A.Getng() == C.ng && A.GetnR() == (int)S.R.size(), "counters");
}
// ---- exact line search: a scalar quasi-Newton iteration on the curve, ended when the slope is small relative to the first one or the step is
void ls_exact(double k, int cap, double r1, double mi, double ma)
{
    LS1 T(LSSM_EXACT, k, cap, 100, true); RSD &A = *T.A; Cost &C = *T.C; Space &S = *T.S; A.LS_alpha = .125; A.LS_ratio1 = r1; A.Minstepsize = mi; A.Maxstepsize = ma; A.Run(); sym_reach("ran");
    double t = A.GetSolverInfo().Field("acceptedstepsize").ObtainReadData()[1]; Mx x = rd(A.GetXopt()), e = Mx(1); e(0) = -t; eqM(x, S.ret(rd(T.x0), e), "iterate is the retraction of the accepted step"); eqM(S.R.back().y, x, "the accepted step is the last one tried");
    int i = C.at(x); double g = C.G(i)(0), s = -g * (1 + 2 * S.k * e(0)); sym_eq(A.Getfinalfun(), C.F(i), "function value of the iterate"); sym_eq(A.Getnormgf(), std::fabs(g), "gradient norm of the iterate");
    if (A.LSstatus == LSSM_SUCCESS) { bool flat = false; double up = 0; for (auto &q : C.P) if (q.g && std::fabs(q.gv(0) * (1 + 2 * S.k * -q.x(0))) <= .1) flat = true; if (r1 < 1e-3) for (auto &r : S.R) if (-r.e(0) > up) up = -r.e(0);
        // an inner search cut off at its smallest step may go on from a point a little above the start (alpha times step times gradient norm) or nearly stationary
        if (r1 > 1e-3 || !flat) sym_le(C.F(i), T.f0 + .125 * up, "decrease"); sym_lt(mi, t, "step above the minimum"); sym_lt(t, ma, "step below the maximum"); if (!(std::fabs(s) < 1e-6)) { bool near = std::fabs(t) < 1e-5; for (size_t j = 0; j + 1 < S.R.size(); j++) if (std::fabs(t + S.R[j].e(0)) < 1e-5) near = true; sym_true(near, "stationary along the curve"); sym_reach("short step"); } else sym_reach("success"); }
    else { sym_true((A.LSstatus == LSSM_MINSTEPSIZE && t <= mi) || (A.LSstatus == LSSM_MAXSTEPSIZE && t >= ma) || A.LSstatus == LSSM_NONEXACT, "status"); sym_reach(sym_fmt("status%d", (int)A.LSstatus).c_str()); }
    sym_true(A.GetIter() == 1, "one iteration"); sym_true(A.Getnf() == C.nf && A.Getng() == C.ng && A.GetnR() == (int)S.R.size(), "counters");
}
struct Init
{
    Init()
    {
        reg2("ls_nonmono2", [] { ls_nonmono(2, 3, 5, 1e300, false); }); reg2("ls_nonmono1", [] { ls_nonmono(1, 2, 4, 1e300, false); }); reg2("ls_nonmono3", [] { ls_nonmono(3, 4, 6, 1e300, false); }); reg2("ls_mono2", [] { ls_nonmono(2, 3, 5, 0, false); }); reg2("ls_nonmono2g", [] { ls_nonmono(2, 3, 5, 1e300, true); }, 1); reg2("ls_nonmono_acc", [] { ls_nonmono(2, 3, 5, .5, true); }, 1);
        reg2("ls_user_pure", [] { ls_user(true, .25, 2, 9); }); reg2("ls_user_armijo", [] { ls_user(false, .25, 2, 5); });
        reg2("ls_exact", [] { ls_exact(0, 2, .25, 1e-15, 1e10); }); reg2("ls_exact3", [] { ls_exact(0, 3, .25, 1e-15, 1e10); }); reg2("ls_exact_back", [] { ls_exact(0, 3, 1. / 1048576, 1e-15, 1e10); }); reg2("ls_exactw", [] { ls_exact(.25, 2, .25, 1e-15, 1e10); }); reg2("ls_exact_max", [] { ls_exact(0, 2, .25, 1e-15, 1.5); }); reg2("ls_exact_min", [] { ls_exact(0, 2, .25, .75, 1e10); });
        struct V { const char *nm; int alg; double k; int cap, capi; double r1, r2; bool sc; double mi, ma; int tier; };
        static const V L[] = {
            {"armijo_back", LSSM_ARMIJO, 0, 8, 0, .25, .25, true, 1e-15, 1e10}, {"armijo_backw", LSSM_ARMIJO, .25, 6, 0, .5, .5, true, 1e-15, 1e10}, {"armijo_poly", LSSM_ARMIJO, 0, 3, 1, .125, .5, true, 1e-15, 1e10}, {"armijo_poly2", LSSM_ARMIJO, 0, 4, 2, .125, .5, true, 1e-15, 1e10, 1},
            {"armijo_min", LSSM_ARMIJO, 0, 4, 0, .25, .25, false, .25, 1e10}, {"armijo_polymin", LSSM_ARMIJO, 0, 3, 1, .125, .5, true, .25, 1e10}, {"armijo_polymin2", LSSM_ARMIJO, 0, 4, 2, .125, .5, true, .25, 1e10, 1},
            {"wolfe_dbl", LSSM_WOLFE, 0, 16, -1, .125, .5, true, 1e-15, 1e10}, {"wolfe_min", LSSM_WOLFE, 0, 4, 1, .125, .5, true, .75, 1e10},
            {"wolfe", LSSM_WOLFE, 0, 3, 1, .125, .5, true, 1e-15, 1e10}, {"wolfe_max", LSSM_WOLFE, 0, 3, 1, .125, .5, true, 1e-15, 1.5}, {"wolfew", LSSM_WOLFE, .25, 3, 1, .125, .5, true, 1e-15, 1e10, 1}, {"wolfe5", LSSM_WOLFE, 0, 5, 1, .125, .5, true, 1e-15, 1e10, 1}, {"wolfe_max4", LSSM_WOLFE, 0, 4, 1, .125, .5, true, 1e-15, 1.5, 1},
            {"strong", LSSM_STRONGWOLFE, 0, 3, 1, .125, .5, true, 1e-15, 1e10}, {"strongw", LSSM_STRONGWOLFE, .25, 2, 1, .125, .5, true, 1e-15, 1e10}, {"strong_max", LSSM_STRONGWOLFE, 0, 3, 1, .125, .5, true, 1e-15, 1.5}, {"strong_min", LSSM_STRONGWOLFE, 0, 3, 1, .125, .5, true, .25, 1e10},
            {"strong4", LSSM_STRONGWOLFE, 0, 4, 1, .125, .5, true, 1e-15, 1e10, 1}, {"strongw3", LSSM_STRONGWOLFE, .25, 3, 1, .125, .5, true, 1e-15, 1e10, 1}, {"strong_max4", LSSM_STRONGWOLFE, 0, 4, 1, .125, .5, true, 1e-15, 1.5, 1}, {"strong_min5", LSSM_STRONGWOLFE, 0, 5, 1, .125, .5, true, .25, 1e10, 1},
        };
        for (auto &v : L) { V w = v; reg2(sym_fmt("ls_%s", v.nm), [w] { ls_case(w.alg, w.k, w.cap, w.capi, w.r1, w.r2, w.sc, w.mi, w.ma); }, v.tier); }
    }
} init_; }
