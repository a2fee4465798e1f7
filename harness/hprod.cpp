// Products of manifolds: every law of a manifold holds for the product with the componentwise description.
#include "mkman.h"
#include "Manifolds/MultiManifolds.h"
namespace {
struct Prod : public ProductManifold
{
    std::vector<std::shared_ptr<Manifold>> keep;
    Prod(std::vector<std::shared_ptr<Manifold>> k, Manifold **ms, int n, int *pw) : ProductManifold(ms, n, pw), keep(k) {}
    Prod(std::vector<std::shared_ptr<Manifold>> k, Manifold *a, int ka, Manifold *b, int kb) : ProductManifold(2, a, ka, b, kb), keep(k) {}
};
Mx part(const Mx &v, int o, int n) { Mx w(n); std::copy(v.a.begin() + o, v.a.begin() + o + n, w.a.begin()); return w; }
void put(Mx &v, int o, const Mx &w) { std::copy(w.a.begin(), w.a.end(), v.a.begin() + o); }
struct Comp { std::shared_ptr<std::vector<MD>> c; std::vector<int> o, n; int N = 0; };
// types[i] repeated pow[i] times; copy j of the product sits at base point b + j
MD mkProd(const std::vector<Mk> &types, const std::vector<int> &pow, int b, bool viaarray, bool ext = false, bool flatok = true)
{
    MD m; Comp C; C.c = std::make_shared<std::vector<MD>>(); std::vector<std::shared_ptr<Manifold>> own; std::vector<Manifold *> ms; std::vector<int> pw(1, 0);
    for (size_t i = 0; i < types.size(); i++)
    {
        for (int k = 0; k < pow[i]; k++) { C.c->push_back(types[i]((b + (int)C.c->size()) % 3)); MD &d = C.c->back(); C.o.push_back(C.N); C.n.push_back(d.x.a.size()); C.N += d.x.a.size(); if (k == 0) { own.push_back(d.M); ms.push_back(d.M.get()); } }
        pw.push_back(pw.back() + pow[i]);
    }
    if (viaarray) m.M = std::make_shared<Prod>(own, ms.data(), (int)ms.size(), pw.data()); else m.M = std::make_shared<Prod>(own, ms[0], pow[0], ms[1], pow[1]);
    int K = C.c->size(); Element shape = m.M->GetEMPTYEXTR();
    m.x = Mx(C.N); for (int i = 0; i < K; i++) put(m.x, C.o[i], (*C.c)[i].x);
    for (int i = 0; i < K; i++) for (auto &v : (*C.c)[i].B) { Mx w(C.N); put(w, C.o[i], v); m.B.push_back(w); }
    m.pt = [shape](const Mx &v) { Element e = shape; realdp *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < v.a.size(); i++) p[i] = v.a[i]; return e; };
    m.tang = [C, K](const Mx &y, const Mx &e, const char *l) { for (int i = 0; i < K; i++) (*C.c)[i].tang(part(y, C.o[i], C.n[i]), part(e, C.o[i], C.n[i]), l); };
    m.onman = [C, K](const Mx &y, const char *l) { for (int i = 0; i < K; i++) (*C.c)[i].onman(part(y, C.o[i], C.n[i]), l); };
    bool anyhor = false; for (auto &d : *C.c) if (d.hor) anyhor = true;
    if (anyhor) m.hor = [C, K](const Mx &y, const Mx &v) { Mx w = v; for (int i = 0; i < K; i++) if ((*C.c)[i].hor) put(w, C.o[i], (*C.c)[i].hor(part(y, C.o[i], C.n[i]), part(v, C.o[i], C.n[i]))); return w; };
    m.ip = [C, K](const Mx &y, const Mx &a, const Mx &b) { double s = 0; for (int i = 0; i < K; i++) s += (*C.c)[i].ip(part(y, C.o[i], C.n[i]), part(a, C.o[i], C.n[i]), part(b, C.o[i], C.n[i])); return s; };
    m.gw = [C, K](const Mx &) { Mx g = Mx::sym("g", C.N), w = Mx::sym("w", C.N); for (int i = 0; i < K; i++) if ((*C.c)[i].symg) { int n = (int)std::sqrt((double)C.n[i] + .5), o = C.o[i]; for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) { g(o + a * n + b) = g(o + a + b * n); w(o + a * n + b) = w(o + a + b * n); } } return std::make_pair(g, w); };
    m.flat = flatok; if (ext) m.M->SetIsIntrApproach(false); defaults(m); return m;
}
// the components of a product of manifolds behave as the manifolds themselves
void law_comp(const MD &m, int k)
{
    Step s = step(m, k); MultiManifolds *P = (MultiManifolds *)m.M.get(); Mx u = m.comb(Mx::sym("c", m.d())); Element U = rep(m, s.X, u), T = m.M->GetEMPTY(); m.M->VectorTransport(s.X, s.E, s.Y, U, &T);
    for (int i = 0; i < P->numoftypes && !m.intr(); i++) P->manifolds[i]->SetIsIntrApproach(false);
    double g = 0; int n = 0; for (int i = 0; i < P->numoftypes; i++) for (int j = P->powsinterval[i]; j < P->powsinterval[i + 1]; j++, n++)
    {
        Manifold *M = P->manifolds[i]; Element X = s.X.GetElement(j), E = s.E.GetElement(j), V = U.GetElement(j), Y = X, W = V; M->Retraction(X, E, &Y); eqM(iv(Y), iv(s.Y.GetElement(j)), "retraction"); M->VectorTransport(X, E, Y, V, &W); eqM(iv(W), iv(T.GetElement(j)), "transport"); g += M->Metric(X, V, E);
    }
    sym_true(n == s.X.Getnumofelements(), "count"); sym_eq(g, m.M->Metric(s.X, U, s.E), "metric");
}
typedef std::function<void(const MD &)> Law;
struct Init
{
    Init()
    {
        struct V { const char *nm; std::vector<Mk> t; std::vector<int> p; bool arr; bool intr, iso, diff, cot, lock, mix; int k; bool ext; };
        Mk sph1 = [](int b) { return mkSphere(2, 1, b); }, sph2 = [](int b) { return mkSphere(2, 2, b); }, sph3 = [](int b) { return mkSphere(3, 1, b); }, gr = [](int b) { return mkGrass(2, 1, true, b); }, st = [](int b) { return mkStiefel(2, 2, 1, false, b); }, spd = [](int b) { return mkSPD(1, 1, b); }, spd2 = [](int b) { return mkSPD(2, 1, b); };
        Mk euc = [](int b) { MD m = mkEuc(1, 1, 1, false); m.x(0) = b + 1; return m; }, euc2 = [](int b) { MD m = mkEuc(2, 1, 1, false); m.x(0) = b + 1; m.x(1) = -b; return m; };
        std::vector<V> L = {
            {"Sph2xEuc2", {sph1, euc2}, {1, 1}, false, true, true, true, true, true, false, 1}, {"Euc1xSph2b", {euc, sph1}, {1, 2}, true, true, true, true, true, true, false, 1}, {"Gr21xSph2", {gr, sph1}, {1, 1}, true, true, true, true, true, true, false, 1},
            {"St22xEuc1", {st, euc}, {1, 2}, false, true, true, true, true, true, false, 1}, {"Sph3xSph2", {sph3, sph1}, {1, 1}, true, true, true, true, true, true, false, 1}, {"SPD1xGr21", {spd, gr}, {2, 1}, true, true, true, true, false, true, false, 1}, {"SPD2xEuc1", {spd2, euc}, {1, 1}, false, true, true, true, false, true, false, 1}, {"Sph2axSph2", {sph2, sph1}, {1, 1}, true, false, true, true, true, false, true, 1}, {"Gr21xSph2e", {gr, sph1}, {1, 1}, true, false, false, true, true, false, true, 1, true}, {"Sph3xEuc1e", {sph3, euc}, {1, 2}, false, false, false, true, true, false, true, 1, true}, {"EucxEuc2", {euc, euc2}, {2, 1}, false, true, true, true, true, true, false, 99},
        };
        for (int w = 0; w < 3; w++) reg("prodlock", w == 0 ? "SPD1xEuc1e" : w == 1 ? "SPD1xSPD1e" : "SPD2xEuc1e", [=](int b) { return mkProd({w == 2 ? spd2 : spd, w == 1 ? spd : euc}, {1, 1}, b, w == 1, true); }, 2, [](const MD &m) { law_lock(m, 1); }, w == 2);
        reg("prodinv", "Euc1xEuc2", [=](int b) { return mkProd({euc, euc2}, {2, 1}, b, true, false); }, 2, [](const MD &m) { law_inv(m, 1); }); reg("prodinv", "Euc2xEuc1", [=](int b) { return mkProd({euc2, euc}, {1, 1}, b, false, false); }, 2, [](const MD &m) { law_inv(m, 1); });
        for (auto &v : L)
        {
            std::vector<Mk> t = v.t; std::vector<int> p = v.p; bool arr = v.arr; int k = v.k; bool iso = v.iso, ext = v.ext; std::string nm = v.nm; Mk mk = [=](int b) { return mkProd(t, p, b, arr, ext); };
            auto R = [&](const char *w, int nb, Law l, int tier = 0) { reg(std::string("prod") + w, nm, mk, nb, l, tier); };
            R("proj", 3, law_proj); if (v.intr) R("intr", 3, law_intr); R("metr", 3, law_metric); R("grad", 3, law_grad); R("hess", 3, [](const MD &m) { law_hess(m); });
            R("retr", 2, [=](const MD &m) { law_retr(m, k, 0, false); }); R("retr0", 3, law_retr_zero); R("retrd", 13, [](const MD &m) { law_retr_d(m, 3); }); R("reuse", 2, [=](const MD &m) { law_reuse(m, k); });
            R("rand", 1, [nm](const MD &m0) { MD m = m0; if (nm.substr(0, 3) == "SPD") m.onman = [](const Mx &, const char *) {}; law_rand(m); });
            if (nm.substr(0, 3) != "SPD") R("dist", 2, [=](const MD &m) { Step s = step(m, k); MultiManifolds *P = (MultiManifolds *)m.M.get(); double d = m.M->Dist(s.X, s.Y), q = 0; for (int i = 0; i < P->numoftypes; i++) for (int j = P->powsinterval[i]; j < P->powsinterval[i + 1]; j++) { double e = P->manifolds[i]->Dist(s.X.GetElement(j), s.Y.GetElement(j)); q += e * e; } sym_le(0, d, "nonnegative"); sym_eq(d * d, q, "sum_of_squares"); sym_eq(m.M->Dist(s.Y, s.X), d, "symmetric"); });
            R("comp", 2, [=](const MD &m) { sym_div0_assume(true); law_comp(m, k); });
            R("vt", 2, [=](const MD &m) { sym_div0_assume(true); law_vt(m, k, iso, !ext); }); R("vt0", 3, law_vt_id);
            if (v.diff) { R("diff", 12, [=](const MD &m) { law_diff(m, k, false); }); R("diffs", 12, [=](const MD &m) { law_diff(m, k, true); }); }
            if (v.cot) R("cot", 2, [=](const MD &m) { sym_div0_assume(true); law_cot(m, k); });
            if (v.lock) { R("lock", 2, [=](const MD &m) { law_lock(m, k); }); R("lockvt", 2, [=](const MD &m) { law_lockvt(m, k, true); }, nm.substr(0, 4) == "SPD2"); R("opetrl", 2, [=](const MD &m) { law_opetr(m, k, true); }, 1); }
            R("ope", 1, law_ope); if (!v.mix) R("opetr", 2, [=](const MD &m) { law_opetr(m, k, false); });
        }
    }
} initp; }
