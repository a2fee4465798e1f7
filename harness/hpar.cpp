// Parameters given by name (par_): each name sets its own parameter, to the value given, and nothing else.
#include "sol.h"
#include "Solvers/RSD.h"
#include "Solvers/RCG.h"
#include "Solvers/RBFGS.h"
#include "Solvers/LRBFGS.h"
#include "Solvers/RWRBFGS.h"
#include "Solvers/RBroydenFamily.h"
#include "Solvers/RNewton.h"
#include "Solvers/RTRSD.h"
#include "Solvers/RTRNewton.h"
#include "Solvers/RTRSR1.h"
#include "Solvers/LRTRSR1.h"
#include "Solvers/RGS.h"
#include "Solvers/RBFGSSub.h"
#include "Solvers/LRBFGSSub.h"
#include "Solvers/ManPG.h"
#include "Solvers/AManPG.h"
#include "Manifolds/Stiefel.h"
#include "Manifolds/Sphere.h"
#include "Manifolds/CStiefel.h"
#include "Manifolds/SymFixedRankQ.h"
#include "Manifolds/CSymFixedRankQ.h"
namespace {
// kinds: reals take any value, integers and enumerations one of a few
struct Par { const char *name; int lo, hi; std::function<double()> get; };   // hi < lo: real
typedef std::vector<Par> Pars;
#define R_(o, f) {#f, 0, -1, [&o] { return (double)o.f; }}
#define I_(o, f, a, b) {#f, a, b, [&o] { return (double)(int)o.f; }}
void add(Pars &p, Pars q) { p.insert(p.end(), q.begin(), q.end()); }
void base(Solvers &o, Pars &p) { add(p, {R_(o, Tolerance), R_(o, TimeBound), I_(o, Max_Iteration, 0, 3), I_(o, Min_Iteration, 0, 3), I_(o, OutputGap, 1, 4), I_(o, Verbose, 0, VERBOSELENGTH - 1)}); }
void sm(SolversSM &o, Pars &p) { base(o, p); add(p, {I_(o, Stop_Criterion, 0, STOPCRITSMLENGTH - 1), R_(o, Accuracy)}); }
void smls(SolversSMLS &o, Pars &p)
{
    sm(o, p); add(p, {I_(o, LineSearch_LS, 0, LSALGOSMLENGTH - 1), I_(o, IsPureLSInput, 0, 1), R_(o, LS_alpha), R_(o, LS_beta), R_(o, Minstepsize), R_(o, Maxstepsize), R_(o, LS_ratio1), R_(o, LS_ratio2), R_(o, Initstepsize), R_(o, Finalstepsize), I_(o, Num_pre_BB, 0, 3), R_(o, BBratio), I_(o, Num_pre_funs, 1, 4), R_(o, PreFunsAccuracy), I_(o, InitSteptype, 0, INITSTEPSIZESETSMLENGTH - 1)});
}
void smtr(SolversSMTR &o, Pars &p)
{
    sm(o, p); add(p, {R_(o, Acceptence_Rho), R_(o, Shrinked_tau), R_(o, Magnified_tau), R_(o, minimum_Delta), R_(o, maximum_Delta), I_(o, useRand, 0, 1), I_(o, Max_Inner_Iter, 0, 3), I_(o, Min_Inner_Iter, 0, 3), R_(o, theta), R_(o, kappa), R_(o, initial_Delta)});
}
void pg(SolversNSMPGLS &o, Pars &p) { base(o, p); add(p, {I_(o, Stop_Criterion, 0, 2), {"RPGLSVariant", 0, 1, [&o] { return (double)(int)o.Variant; }}, R_(o, LS_ratio), R_(o, LS_alpha), R_(o, Minstepsize)}); }
void subls(SolversNSMSubLS &o, Pars &p)
{
    base(o, p); add(p, {I_(o, Stop_Criterion, 0, 2), R_(o, Diffx), I_(o, NumExtraGF, 1, 4), R_(o, Eps), R_(o, Theta_eps), R_(o, Min_Eps), R_(o, Del), R_(o, Theta_del), R_(o, LS_alpha), R_(o, LS_beta), R_(o, Minstepsize), R_(o, Maxstepsize), R_(o, lambdaLower), R_(o, lambdaUpper)});
}
// one parameter by name, then a second one together with it, then all together
void run(Solvers &o, Pars p)
{
    int n = p.size(), i = sym_choice("i", n), j = (i * i + 1) % n; auto val = [&](int k) { return p[k].hi < p[k].lo ? sym_real(sym_fmt("v%d", k).c_str()) : p[k].lo + k % (p[k].hi - p[k].lo + 1); };
    auto chk = [&](const std::vector<double> &w) { for (int k = 0; k < n; k++) { double g = p[k].get(); sym_eq(g, w[k], sym_fmt("%s", p[k].name).c_str()); } };
    std::vector<double> w; for (auto &q : p) w.push_back(q.get());
    PARAMSMAP m; m.insert(std::pair<std::string, double>(p[i].name, w[i] = val(i))); if (j != i) m.insert(std::pair<std::string, double>(p[j].name, w[j] = val(j))); o.SetParams(m); chk(w); sym_reach("some");
    PARAMSMAP a; for (int k = 0; k < n; k++) a.insert(std::pair<std::string, double>(p[k].name, w[k] = val(k))); o.SetParams(a); chk(w); sym_reach("all");
    PARAMSMAP e; e.insert(std::pair<std::string, double>("NoSuchParameter", 1)); o.SetParams(e); chk(w);
}
// a numbered set of geometric parameters given by name is that set, whatever was chosen before
template <class M> void mset(std::function<M *()> mk, std::vector<std::function<void(M &)>> sets)
{
    int k = sym_choice("set", sets.size()), b = sym_choice("before", sets.size()), h = sym_choice("hhr", 2); std::unique_ptr<M> A(mk()), B(mk()); sets[b](*A); sets[k](*B); PARAMSMAP m; m.insert(std::pair<std::string, double>("ParamSet", k + 1)); A->SetParams(m);
    sym_true(A->metric == B->metric, "metric"); sym_true(A->VecTran == B->VecTran, "vector transport"); sym_true(A->IsIntrApproach == B->IsIntrApproach, "representation"); sym_true(A->HasHHR == B->HasHHR, "Householder reflections");
    PARAMSMAP q; q.insert(std::pair<std::string, double>("HasHHR", h)); A->SetParams(q); sym_true(A->GetHasHHR() == (h == 1), "Householder reflections given by name"); sym_true(A->metric == B->metric && A->VecTran == B->VecTran, "nothing else"); sym_reach("set");
}
struct Init
{
    template <class S> void go(const char *nm, std::function<void(S &, Pars &)> pars)
    {
        sym_register_case(sym_fmt("par_%s", nm), [pars] { Space M(2); Cost C(&M); Variable x = M.GetEMPTY(); realdp *q = x.ObtainWriteEntireData(); q[0] = 1; q[1] = 2; std::unique_ptr<S> s(new S(&C, &x)); Pars p; pars(*s, p); run(*s, p); });
    }
    template <class S> void ls(const char *nm, std::function<void(S &, Pars &)> more = nullptr) { go<S>(nm, [more](S &s, Pars &p) { smls(s, p); if (more) more(s, p); }); }
    template <class S> void tr(const char *nm, std::function<void(S &, Pars &)> more = nullptr) { go<S>(nm, [more](S &s, Pars &p) { smtr(s, p); if (more) more(s, p); }); }
    template <class S> static void qn(S &s, Pars &p) { add(p, {I_(s, isconvex, 0, 1), R_(s, nu), R_(s, mu)}); }
    Init()
    {
#define CS(T, k) [](T &m) { m.ChooseParamsSet##k(); }
        sym_register_case("par_stiefel", [] { mset<Stiefel>([] { return new Stiefel(3, 2); }, {CS(Stiefel, 1), CS(Stiefel, 2), CS(Stiefel, 3), CS(Stiefel, 4), CS(Stiefel, 5)}); }); sym_register_case("par_sphere", [] { mset<Sphere>([] { return new Sphere(3); }, {CS(Sphere, 1), CS(Sphere, 2), CS(Sphere, 3), CS(Sphere, 4)}); });
        sym_register_case("par_cstiefel", [] { mset<CStiefel>([] { return new CStiefel(3, 2); }, {CS(CStiefel, 1), CS(CStiefel, 2), CS(CStiefel, 3), CS(CStiefel, 4)}); }); sym_register_case("par_symfrq", [] { mset<SymFixedRankQ>([] { return new SymFixedRankQ(3, 2); }, {CS(SymFixedRankQ, 1), CS(SymFixedRankQ, 2), CS(SymFixedRankQ, 3), CS(SymFixedRankQ, 4), CS(SymFixedRankQ, 5), CS(SymFixedRankQ, 6)}); });
        sym_register_case("par_csymfrq", [] { mset<CSymFixedRankQ>([] { return new CSymFixedRankQ(3, 2); }, {CS(CSymFixedRankQ, 1), CS(CSymFixedRankQ, 2), CS(CSymFixedRankQ, 3), CS(CSymFixedRankQ, 4)}); });
        ls<RSD>("rsd"); ls<RCG>("rcg", [](RCG &s, Pars &p) { add(p, {I_(s, RCGmethod, 0, 5)}); }); ls<RBFGS>("rbfgs", qn<RBFGS>); ls<RWRBFGS>("rwrbfgs", qn<RWRBFGS>); ls<RBroydenFamily>("rbroyden", qn<RBroydenFamily>);
        ls<LRBFGS>("lrbfgs", [](LRBFGS &s, Pars &p) { qn(s, p); add(p, {I_(s, LengthSY, 0, 5), I_(s, LMrestart, 0, 1)}); });
        ls<RNewton>("rnewton", [](RNewton &s, Pars &p) { add(p, {I_(s, useRand, 0, 1), I_(s, Max_Inner_Iter, 0, 3), I_(s, Min_Inner_Iter, 0, 3), R_(s, theta), R_(s, kappa)}); });
        tr<RTRSD>("rtrsd"); tr<RTRNewton>("rtrnewton"); tr<RTRSR1>("rtrsr1"); tr<LRTRSR1>("lrtrsr1", [](LRTRSR1 &s, Pars &p) { add(p, {I_(s, LengthSY, 0, 5), I_(s, LMrestart, 0, 1)}); });
        go<ManPG>("manpg", [](ManPG &s, Pars &p) { pg(s, p); }); go<AManPG>("amanpg", [](AManPG &s, Pars &p) { pg(s, p); add(p, {I_(s, SGIterGap, 1, 5)}); });
        go<RGS>("rgs", [](RGS &s, Pars &p) { subls(s, p); }); go<RBFGSSub>("rbfgssub", [](RBFGSSub &s, Pars &p) { subls(s, p); }); go<LRBFGSSub>("lrbfgssub", [](LRBFGSSub &s, Pars &p) { subls(s, p); add(p, {I_(s, LengthSY, 1, 5)}); });
    }
} init_;
}
