// The subgradient solvers (RGS, RBFGSSub, LRBFGSSub) on an arbitrary cost function: search directions from the collected
// subgradients, line search, shrinking of the neighbourhood, reports (sub_), and the inverse Hessian approximations (subqn_).
// The subproblem (the shortest vector of a convex hull) is replaced by its exact solution in dimension one.
#include "sol.h"
#include "Solvers/RGS.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Others/MinPNormConHull.h"
namespace {
const double TINY = 1. / 1048576;   // stands for zero
struct Hull { std::vector<Mx> Y; Mx v; double q; bool P; size_t r; };
std::vector<Hull> HC; Space *HS; Cost *HF;
struct Stp { Mx x; double nd, nd0, Eps, Del; int iter; bool fresh; };
std::vector<Stp> ST; int ND, SCAP = 6; std::vector<char> ANS;
}
namespace ROPTLIB {
realdp MinPNormConHull(const Manifold *M, Variable x, Vector *Ys, integer n, SolversNSMSub *s, Vector &(SolversNSMSub::*Hv)(const Vector &, Vector *), Vector &out)
{
    Hull c; for (int j = 0; j < n; j++) c.Y.push_back(rd(Ys[j])); c.P = Hv != nullptr; c.r = HS->R.size(); Mx v = c.Y[0]; if (n > 1 && v.r > 1) sym_fail("dimension");
    for (int j = 1; j < n; j++) { double a = v(0), b = c.Y[j](0); if (a * b <= 0 || v(0) == TINY) v(0) = TINY; else if (a > 0) { if (b < a) v(0) = b; } else if (b > a) v(0) = b; }
    out = Ys[0]; Space::out(v, &out); Vector h = out; if (Hv) (s->*Hv)(out, &h); c.v = v; c.q = HS->ip(rd(x), v, rd(h)); HC.push_back(c); return c.q;
}
realdp MinPNormConHull(const Manifold *M, Variable x, Vector *Ys, integer n, Vector &out) { return MinPNormConHull(M, x, Ys, n, nullptr, nullptr, out); }
}
namespace {
template <class B> Mx mul(B *s, const Mx &v) { Vector a = HS->GetEMPTY(), b = a; Space::out(v, &a); s->HvSub(a, &b); return rd(b); }
template <class B> struct Hook : public B
{
    using B::B; bool gs = false;
    virtual void GetSearchDir(void)
    {
        HC.clear(); ND++; size_t r0 = HS->R.size(); B::GetSearchDir(); Mx x = rd(this->x1), g = HF->G(HF->at(x)), d = rd(this->eta1); double Eps = this->Eps; if (gs) { sampled(r0); return; }
        std::vector<Hull> p; for (auto &h : HC) if (h.P) p.push_back(h); sym_true(!p.empty(), "subproblem solved"); if (p.empty()) return; auto in = [&](const Mx &a, const Mx &b) { return HS->ip(x, a, b); };
        for (size_t j = 0; j < p.size(); j++)
        {
            sym_true(p[j].Y.size() == j + 1, "one subgradient added at a time"); eqM(p[j].Y[0], g, "gradient at the iterate among the subgradients"); for (size_t i = 1; i < j; i++) eqM(p[j].Y[i], p[j - 1].Y[i], "subgradients kept"); if (!j) continue;
            RCall &r = HS->R[p[j].r - 1]; eqM(r.x, x, "subgradients collected around the iterate"); Mx e = -1. * mul((B *)this, p[j - 1].v); double a = dot(r.e, e) / dot(e, e); eqM(r.e, a * e, "subgradients collected along the direction"); sym_lt(0, a, "along the direction"); sym_le(in(r.e, r.e), Eps * Eps, "within the neighbourhood");
            eqM(p[j].Y[j], (1 / HS->beta) * (HS->Ti(x, r.y) * HF->G(HF->at(r.y))), "subgradient carried back to the iterate"); sym_reach("collected");
            if (HS->mw == 0 && HS->beta == 1) sym_le(-this->LS_alpha * p[j - 1].q, dot(p[j].Y[j], e), "subgradient contradicting the decrease along the direction");
        }
        Hull &l = p.back(); eqM(d, -1. * mul((B *)this, l.v), "search direction of the shortest vector"); double nm = HC.back().P ? in(l.v, l.v) : HC.back().q;
        if (nm <= this->Del * this->Del) { sym_eq(this->ndir1, std::sqrt(nm), "reported length of the shortest vector"); sym_reach("short"); return; }
        sym_lt(in(d, l.v), 0, "descent direction for the shortest vector"); double nd = std::sqrt(in(d, d)); sym_eq(this->ndir1, nd, "reported length of the direction"); if ((int)p.size() == this->Lengthgfs - 1 && HS->R.size() > p.back().r + 1) { sym_reach("full"); return; }
        Mx y = HS->ret(x, (Eps / nd) * d); bool seen = false; for (size_t i = r0; i < HS->R.size(); i++) seen = seen || HF->eq(HS->R[i].y, y); sym_true(seen, "decrease tested at the edge of the neighbourhood");
        bool dec = HF->F(HF->at(y)) <= HF->F(HF->at(x)) - this->LS_alpha * (Eps / nd) * l.q; sym_true(dec || (int)p.size() == this->Lengthgfs - 1, "decrease along the direction"); sym_reach("decrease");
    }
    void sampled(size_t r0)
    {
        Mx x = rd(this->x1), g = HF->G(HF->at(x)), d = rd(this->eta1); sym_true(HC.size() == 1, "one subproblem"); Hull &h = HC.back(); sym_true((int)h.Y.size() == this->Lengthgfs, "number of samples"); eqM(h.Y[0], g, "gradient at the iterate among the subgradients"); sym_true(HS->R.size() == r0 + h.Y.size() - 1, "one point per sample"); if (HS->R.size() != r0 + h.Y.size() - 1) return;
        for (size_t j = 1; j < h.Y.size(); j++) { RCall &r = HS->R[r0 + j - 1]; eqM(r.x, x, "samples around the iterate"); sym_eq(HS->ip(x, r.e, r.e), this->Eps * this->Eps, "samples at the distance of the neighbourhood"); eqM(h.Y[j], HS->Ti(x, r.y) * HF->G(HF->at(r.y)), "gradient of the sample carried back to the iterate"); sym_reach("sampled"); }
        double nd = std::sqrt(h.q); sym_eq(this->ndir1, nd, "reported length of the shortest vector"); if (nd > 0) eqM(d, (-1 / nd) * h.v, "search direction of the shortest vector");
    }
    virtual void UpdateData(void)
    {
        Mx x = rd(this->x1), y = rd(this->x2), e = rd(this->eta2), d = rd(this->eta1), v = rd(this->minPv); int i = HF->at(x), j = HF->at(y); double sl = HS->ip(x, v, d); eqM(y, HS->ret(x, e), "next iterate on the retraction curve"); sym_eq(this->f1, HF->F(i), "function value of the iterate"); sym_eq(this->f2, HF->F(j), "function value of the next iterate"); eqM(rd(this->gf2), HF->G(j), "gradient of the next iterate"); sym_eq(this->initialslope, sl, "slope");
        bool ok = this->LSstatus == LSNSM_SUCCESS, mx = this->LSstatus == LSNSM_MAXSTEPSIZE, nc = this->LSstatus == LSNSM_NOCURVATURE; if (ok || mx || nc) { double t = ok || nc ? (double)this->stepsize : dot(e, d) / dot(d, d); eqM(e, t * d, "step along the direction"); sym_lt(0, t, "positive step size"); sym_le(HF->F(j), HF->F(i) + this->LS_alpha * t * sl, "sufficient decrease"); }
        if (ok) { sym_le(this->LS_beta * sl, HS->ip(y, HF->G(j), HS->dret(e, d)), "curvature condition"); sym_reach("success"); } if (mx) sym_reach("max");
        B::UpdateData();
    }
};
bool rec(const Variable &, const Vector &, integer, realdp nd, realdp nd0, const Problem *, const Solvers *s)
{
    SolversNSMSubLS *a = (SolversNSMSubLS *)s; ST.push_back({rd(a->x1), nd, nd0, (double)a->Eps, (double)a->Del, (int)a->iter, true}); if ((int)ST.size() > SCAP) sym_stop(); return !ANS.empty() && ANS[ST.size() - 1];
}
enum { GS, BF, LB }; const char *KN[] = {"rgs", "rbfgssub", "lrbfgssub"};
struct Drv
{
    std::shared_ptr<Space> S; std::shared_ptr<Cost> C; Variable x0; std::shared_ptr<SolversNSMSubLS> A; int kind, n;
    Drv(int kd, int n_, int iters, double q = 0, double k = 0, double x = 0) : kind(kd), n(n_)
    {
        ST.clear(); HC.clear(); ANS.clear(); ND = 0; SCAP = 6; S = std::make_shared<Space>(n, k, q); C = std::make_shared<Cost>(S.get()); HS = S.get(); HF = C.get(); x0 = S->GetEMPTY(); realdp *p = x0.ObtainWriteEntireData(); for (int i = 0; i < n; i++) p[i] = x;
        if (kd == GS) { auto a = std::make_shared<Hook<RGS>>(C.get(), &x0); a->gs = true; A = a; } else if (kd == BF) A = std::make_shared<Hook<RBFGSSub>>(C.get(), &x0, (LinearOPE *)nullptr); else A = std::make_shared<Hook<LRBFGSSub>>(C.get(), &x0);
        A->StopPtr = rec; A->Max_Iteration = iters; A->OutputGap = 100; A->Verbose = ITERRESULT; A->NumExtraGF = kd == GS ? 0 : 1; A->LS_alpha = .125; A->LS_beta = .5; A->lambdaLower = 1. / 64; A->lambdaUpper = 64; A->Theta_eps = .25; A->Theta_del = .25; A->Min_Eps = 1. / 4; A->Del = .125; A->Tolerance = 1. / 32;
    }
};
void chk(Drv &D)
{
    SolversNSMSubLS &A = *D.A; Cost &C = *D.C; int it = A.GetIter(); sym_reach("ran"); Mx x = rd(A.GetXopt()); int nf = C.nf, ng = C.ng, nR = D.S->R.size(); sym_eq(A.Getfinalfun(), C.F(C.at(x)), "final function value"); sym_true(A.Getnf() == nf, "number of function evaluations"); sym_true(A.Getng() == ng, "number of gradient evaluations"); sym_true(A.GetnR() == nR, "number of retractions");
    sym_true(it <= A.Max_Iteration, "at most Max_Iteration iterations"); sym_true(A.GetlengthSeries() == it + 1, "length of the series"); std::vector<Mx> xs; std::vector<double> nd; for (auto &s : ST) { if (xs.size() == (size_t)s.iter + 1) { eqM(s.x, xs.back(), "iterate kept while the neighbourhood shrinks"); nd.back() = s.nd; continue; } xs.push_back(s.x); nd.push_back(s.nd); } if ((int)xs.size() == it) xs.push_back(x);
    sym_true((int)xs.size() == it + 1, "one iterate per iteration"); if ((int)xs.size() != it + 1) return; eqM(x, xs.back(), "optimizer is the last iterate"); const realdp *fs = A.GetfunSeries().ObtainReadData(), *ds = A.GetdirSeries().ObtainReadData();
    for (int k = 0; k <= it; k++) { sym_eq(fs[k], C.F(C.at(xs[k])), "series of function values"); if (k < (int)nd.size()) sym_eq(ds[k], nd[k], "series of lengths of the directions"); if (k && !(k == it && A.LSstatus != LSNSM_SUCCESS && A.LSstatus != LSNSM_MAXSTEPSIZE)) sym_lt(fs[k], fs[k - 1], "function value decreases"); }
    sym_eq(ds[it], A.Getnormnd(), "last length of the series of directions"); double g0 = std::sqrt(D.S->ip(xs[0], C.G(0), C.G(0)));
    // the neighbourhood
    for (size_t k = 0; k < ST.size(); k++)
    {
        sym_eq(ST[k].nd0, g0, "length of the gradient at the initial iterate"); double E = ST[k].Eps, De = ST[k].Del; bool sh = ST[k].nd <= De || ST[k].nd <= A.Tolerance; int ni = ST[k].iter + !sh; if (ST[k].nd <= A.Tolerance && E <= A.Min_Eps) { sym_true(k + 1 == ST.size() && it == ST[k].iter, "ends where nothing is left to shrink"); sym_reach("ends"); break; } if (sh) { E *= A.Theta_eps; if (E < A.Min_Eps) E = A.Min_Eps; if (E > A.Min_Eps) De *= A.Theta_del; else while (ST[k].nd < De) De *= A.Theta_del; sym_reach("shrink"); }
        bool more = k + 1 < ST.size(); sym_eq(more ? ST[k + 1].Eps : (double)A.Eps, E, "size of the neighbourhood"); sym_eq(more ? ST[k + 1].Del : (double)A.Del, De, "tolerance of the neighbourhood"); sym_true((more ? ST[k + 1].iter : it) == ni, "an iteration unless the neighbourhood shrinks");
    }
}
std::function<Mx(int)> g1(double first, int conc, int n = 1) { static const double L[5][2] = {{1, .75}, {-.5, .25}, {2, -1}, {.25, .5}, {-1, .125}}; return [=](int i) { Mx g(n); for (int a = 0; a < n; a++) g(a) = i == 0 && a == 0 ? first : i >= 1 && i <= conc ? L[i % 5][a] : sym_real(sym_fmt("g%d_%d", i, a).c_str()); return g; }; }
void run(int kd, int it, int cap, int extra, double first, int conc, double mw, double beta, double x = 0, bool symEps = false, int scap = 3, bool fconc = false)
{
    Drv D(kd, 1, it, 0, 0, x); D.S->cap = cap; D.S->mw = mw; D.S->beta = beta; D.C->grad = g1(first, conc); D.C->posg = true; D.A->NumExtraGF = extra; if (kd == GS) sym_div0_assume(true); if (fconc) D.C->val = [](int i) { static const double L[] = {0, -1, .5, -2, -2.5, -1.5, -4, -4.25}; return L[i % 8]; }; if (symEps) { double e = sym_real("Eps"); sym_assume_lt(1. / 4, e); sym_assume_le(e, 4); D.A->Eps = e; } SCAP = scap; D.A->Run(); chk(D);
}
// which criterion ends the run: the user's, after the neighbourhood reached its smallest size
void stop(int kd, int mn)
{
    Drv D(kd, 1, 3); D.A->NumExtraGF = kd == GS ? 0 : 1; D.C->grad = g1(1, 9); D.C->val = [](int i) { return -10. * i; }; D.A->Maxstepsize = 1; D.A->Min_Iteration = mn; D.A->Eps = D.A->Min_Eps = 1. / 4; for (int k = 0; k < 6; k++) ANS.push_back(sym_choice(sym_fmt("stop%d", k).c_str(), 2)); D.A->Run(); int want = 3; for (size_t k = 0; k < ST.size(); k++) { if (ST[k].nd <= D.A->Tolerance) { want = ST[k].iter; break; } int i = ST[k].iter + (ST[k].nd > ST[k].Del && ST[k].nd > D.A->Tolerance); if (i >= 3 || (ANS[k] && i >= mn)) { want = i; break; } } sym_true(D.A->GetIter() == want, "stops after the criterion holds"); sym_reach(sym_fmt("stop%d", want).c_str());
}
void funrel(int kd)
{
    Drv D(kd, 1, 3); D.C->grad = [](int i) { static const double L[] = {1, -2, 3, 2, -1}; Mx g(1); g(0) = L[i % 5]; return g; }; D.A->StopPtr = nullptr; D.A->Stop_Criterion = NSM_FUN_REL; double tol = sym_pos("tol"); D.A->Eps = D.A->Min_Eps = 1. / 4; D.A->Maxstepsize = 1; D.S->cap = 8; D.C->distinct = true; D.C->val = [](int i) { static const double L[] = {0, -10, -8, -24, -26, -60, -100, -200, -300}; return L[i % 9]; }; D.A->Tolerance = tol; sym_assume_lt(tol, .5); D.A->Run();
    const realdp *f = D.A->GetfunSeries().ObtainReadData(); int it = D.A->GetIter(), want = 3; for (int k = 1; k < 3; k++) if (std::fabs(f[k - 1] - f[k]) / (std::fabs(f[k]) + 1) < tol) { want = k + 1; break; } if (D.A->ndir1 <= tol) return; if (D.A->LSstatus != LSNSM_SUCCESS && D.A->LSstatus != LSNSM_MAXSTEPSIZE) return; sym_true(it == want, "stops after the relative change of the function value is small"); sym_reach(sym_fmt("stop%d", want).c_str());
}
// gradient so short that the run cannot go on: it ends
void stall(int kd, bool zero)
{
    Drv D(kd, 1, 2); D.A->StopPtr = nullptr; double t = sym_real("g"); if (zero) { D.C->grad = [](int) { return Mx(1); }; } else { sym_assume_lt(0, t); sym_assume_le(t, 1. / 32); D.C->grad = [t](int) { Mx g(1); g(0) = t; return g; }; } D.C->val = [](int) { return 1.; }; D.A->Eps = D.A->Min_Eps = 1. / 4; static int left; left = 12; D.S->onR = nullptr; D.S->cap = 12; D.A->Stop_Criterion = NSM_DIR_F_0; D.A->Run(); sym_true(true, "ended"); sym_true(ND <= 4, "ends at a stationary point"); sym_reach("ended");
}
// ---- approximations of the inverse Hessian
Mx bfgs(const Mx &x, const Mx &H, const Mx &s, const Mx &y) { double rho = 1 / HS->ip(x, s, y); Mx V = Mx::eye(s.r) - rho * HS->tensor(x, s, y), W = Mx::eye(s.r) - rho * HS->tensor(x, y, s); return V * H * W + rho * HS->tensor(x, s, s); }
void qn(int kd, int it, int m, int sy, double mw, double beta, double lo, double up)
{
    int n = 2; Drv D(kd, n, 0, .5); Space &S = *D.S; S.mw = mw; S.beta = beta; Cost &C = *D.C; C.distinct = true; static const double GL[5][2] = {{.75, 1}, {.375, -.5}, {-.3125, .75}, {.5, .375}, {-.1875, .25}}, E[4][2] = {{-.5, -.75}, {.25, -.5}, {.5, .125}, {-.25, .375}}; C.grad = [sy](int i) { Mx g(2); for (int a = 0; a < 2; a++) g(a) = sy >> i & 1 ? sym_real(sym_fmt("g%d_%d", i, a).c_str()) : GL[i % 5][a]; return g; };
    SolversNSMSubLS &A = *D.A; A.lambdaLower = lo; A.lambdaUpper = up; if (kd == LB) ((LRBFGSSub &)A).LengthSY = m; A.Run(); Mx H = Mx::eye(n); std::vector<Mx> Ss, Ys; sym_div0_assume(true); Mx X;
    for (int k = 0; k < it; k++)
    {
        Mx e(n), x = rd(A.x1); for (int a = 0; a < n; a++) e(a) = E[k][a]; A.eta2 = S.GetEMPTY(); Space::out(e, &A.eta2); S.Retraction(A.x1, A.eta2, &A.x2); Mx y = rd(A.x2); Mx ga = C.G(C.at(x)), gb = C.G(C.at(y)); A.gf1 = S.GetEMPTY(); A.gf2 = A.gf1; Space::out(ga, &A.gf1); Space::out(gb, &A.gf2); A.iter = k + 1; if (kd == BF) ((RBFGSSub &)A).UpdateDataRBFGSSub(); else ((LRBFGSSub &)A).UpdateDataLRBFGSSub();
        Mx T = S.T(x, y), Ti = S.Ti(x, y), s = T * e, v = (1 / beta) * gb - T * ga; double sv = S.ip(y, s, v), vv = S.ip(y, v, v), c = 1 / up - sv / vv; if (c > 0) { s = s + c * v; sym_reach("corrected"); } sv = S.ip(y, s, v); double ss = S.ip(y, s, s); bool upd = kd == BF ? sv / ss > lo : sv / ss >= lo; for (auto &z : Ss) z = T * z; for (auto &z : Ys) z = T * z;
        if (kd == BF) { if (k == 0 && sv > 0) H = (sv / vv) * Mx::eye(n); H = T * H * Ti; H = upd ? bfgs(y, H, s, v) : Mx::eye(n); }
        else { if (upd) { Ss.push_back(s); Ys.push_back(v); if ((int)Ss.size() > m) { Ss.erase(Ss.begin()); Ys.erase(Ys.begin()); } sym_eq(((LRBFGSSub &)A).gamma, sv / vv, "scaling of the initial approximation"); } else { Ss.clear(); Ys.clear(); } H = ((LRBFGSSub &)A).gamma * Mx::eye(n); for (size_t j = 0; j < Ss.size(); j++) H = bfgs(y, H, Ss[j], Ys[j]); }
        sym_reach(upd ? "update" : "skip"); Variable t = A.x1; A.x1 = A.x2; A.x2 = t; X = y; if (upd && (kd == BF || m)) eqM(H * v, s, "reference satisfies the secant equation");
    }
    for (int j = 0; j < n; j++) { Mx u(n); u(j) = 1; eqM(kd == BF ? mul((RBFGSSub *)&A, u) : mul((LRBFGSSub *)&A, u), H.col(j), "approximation of the inverse Hessian"); }
}
void rerun()
{
    Drv D(LB, 1, 2); D.C->grad = [](int i) { Mx g(1); static const double L[] = {1, -.5, 2, .25, -1}; g(0) = L[i % 5]; if (i == 2) { g(0) = sym_real("g"); sym_assume_le(1. / 16, g(0)); sym_assume_le(g(0), 4); } return g; }; D.C->distinct = true; D.C->val = [](int i) { return -10. * i; }; D.A->Maxstepsize = 1; D.A->Eps = D.A->Min_Eps = 1. / 4; D.A->Del = 1. / 1024; sym_div0_assume(true); D.A->Run(); std::vector<RCall> R = D.S->R; D.S->R.clear(); Variable x0 = D.x0; double De = D.A->Del; sym_eq(De, 1. / 1024, "tolerance"); D.A->SetProbX(D.C.get(), &x0); D.A->NumExtraGF = 1; D.A->Run(); sym_true(R.size() == D.S->R.size(), "same number of steps"); if (R.size() != D.S->R.size()) return; for (size_t k = 0; k < R.size(); k++) { eqM(D.S->R[k].x, R[k].x, "iterates repeat"); eqM(D.S->R[k].e, R[k].e, "steps repeat"); } sym_reach("rerun");
}
struct Init
{
    Init()
    {
        for (int k = 0; k < 3; k++)
        {
            int e0 = k == GS ? 0 : 1; const char *nm = KN[k];
            sym_register_case(sym_fmt("sub_%s", nm), [=] { run(k, 1, 3, e0, 1, 0, 0, 1); });
            struct R { const char *nm; int it, cap, ex; double g; int conc; double mw, b, x; bool se; int sc; bool fc; int tier; }; const R T[] = {
                {"two", 2, 4, 0, 1, 9, 0, 1, 0, false, 3, false, 0}, {"twog", 2, 4, 0, 1, 1, 0, 1, 0, false, 3, true, 0}, {"col", 1, 3, 1, 1, 9, 0, 2, 0, false, 3, false, 0}, {"colg", 1, 4, 1, 1, k == GS ? 1 : 0, 0, 2, 0, false, 3, true, 0}, {"met", 1, 4, 1, 1, 9, .25, 2, 1, false, 3, false, 0}, {"metg", 1, 3, 1, 1, k == GS ? 1 : 0, .25, 2, 1, false, 3, true, 0}, {"eps", 1, 3, 1, 1, 9, .25, 2, 1, true, 3, true, 0},
                {"twoa", 2, 4, 0, 1, 1, 0, 1, 0, false, 3, false, 1}, {"cola", 1, 4, 1, 1, 0, 0, 2, 0, false, 3, false, 1}, {"meta", 1, 3, 1, 1, 0, .25, 2, 1, true, 3, false, 1}, {"two6", 2, 6, 0, 1, 9, 0, 1, 0, false, 4, false, 0}, {"two6g", 2, 6, 0, 1, 1, 0, 1, 0, false, 4, true, 0}};
            for (auto &t : T) { R r = t; sym_register_case(sym_fmt("sub_%s_%s", t.nm, nm), [=] { run(k, r.it, r.cap, r.ex + e0, r.g, r.conc, r.mw, r.b, r.x, r.se && k != GS, r.sc, r.fc); }, r.tier); }
            sym_register_case(sym_fmt("sub_short_%s", nm), [=] { run(k, 1, 3, e0, .0625, 0, 0, 1); });
            sym_register_case(sym_fmt("sub_stop_%s", nm), [=] { stop(k, 0); }); sym_register_case(sym_fmt("sub_stopmin_%s", nm), [=] { stop(k, 2); }); sym_register_case(sym_fmt("sub_funrel_%s", nm), [=] { funrel(k); }); sym_register_case(sym_fmt("sub_stall_%s", nm), [=] { stall(k, false); }); sym_register_case(sym_fmt("sub_stall0_%s", nm), [=] { stall(k, true); });
        }
        struct Q { const char *nm; int kd, it, m, sy; double mw, b, lo, up; int tier; }; static const Q L[] = {{"bfgs1", BF, 1, 0, 2, .25, 2, .125, 4}, {"bfgs2", BF, 2, 0, 4, .25, 1, .125, 4}, {"bfgs3", BF, 3, 0, 8, 0, .5, 1. / 64, 64}, {"lbfgs1", LB, 1, 4, 2, .25, 2, .125, 4}, {"lbfgs2", LB, 2, 2, 4, .25, 1, .125, 4}, {"lbfgs_m1", LB, 2, 1, 4, 0, .5, 1. / 64, 64}, {"lbfgs_m2", LB, 3, 2, 8, 0, 1, 1. / 64, 64}, {"lbfgs_m0", LB, 2, 0, 4, 0, 1, 1. / 64, 64}, {"lbfgs_m3", LB, 4, 3, 16, 0, 1, 1. / 64, 64, 1}, {"bfgs4", BF, 4, 0, 16, 0, 1, 1. / 64, 64, 1}};
        for (auto &q : L) { Q o = q; sym_register_case(sym_fmt("subqn_%s", q.nm), [o] { qn(o.kd, o.it, o.m, o.sy, o.mw, o.b, o.lo, o.up); }, q.tier); }
        sym_register_case("sub_rerun_lrbfgssub", rerun);
    }
} init_; }
