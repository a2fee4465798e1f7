#include "mkman.h"
extern void sym_register_svd(int m, int n, const double *U, const double *S, const double *V);
// polar retraction on St(n,2), n in {2,3} (or p = 1): the step om*J + k*u*v^T has singular values sqrt(1+om^2+k^2), sqrt(1+om^2)
static Mx polarstep(const MD &m, int n, int p, const Mx &Q, double om, double k, int vi)
{
    Mx x = Q.col(0, p), e(n, p), V = Mx::eye(p);
    if (p == 2) { Mx J(2, 2); J(1, 0) = 1; J(0, 1) = -1; e = om * (x * J); V = fixedrot(2, vi); }
    if (n > p) e = e + k * (Q.col(p) * V.col(0).t());
    Mx S(p); S(0) = n > p ? std::sqrt(1 + (p == 2 ? om * om : 0) + k * k) : std::sqrt(1 + om * om); if (p == 2) S(1) = std::sqrt(1 + om * om);
    Mx W = (x + e) * V; for (int j = 0; j < p; j++) for (int i = 0; i < n; i++) W(i, j) = W(i, j) / S(j);
    sym_register_svd(n, p, W.a.data(), S.a.data(), V.a.data());
    return flat(e);
}
static void polar(const std::string &what, int n, int p, int set)
{
    int b = sym_choice("base", 3), vi = p == 2 ? sym_choice("vdir", 3) : 0; MD m = mkStiefel(n, p, set, false, b); Mx Q = baseQ(n, b);
    double om = p == 2 ? sym_real("om") : 0, k = n > p ? sym_real("k") : 0;
    if (what == "retrd")
    {
        Mx dir = polarstep(m, n, p, Q, om, k, vi);
        std::vector<double> dd = sym_ddt([&](double t) { polarstep(m, n, p, Q, t * om, t * k, vi); Element X = m.X(), Y = m.X(), E = rep(m, X, t * dir); m.M->Retraction(X, E, &Y); return m.ptv(Y).a; });
        Mx D(dd.size()); D.a = dd; eqM(D, dir, "local_rigidity"); return;
    }
    Step s; s.X = m.X(); s.eta = polarstep(m, n, p, Q, om, k, vi); s.E = rep(m, s.X, s.eta); s.Y = m.X(); Mx e0 = iv(s.E); m.M->Retraction(s.X, s.E, &s.Y); s.y = m.ptv(s.Y);
    if (what == "retr")
    {
        m.onman(s.y, "on_manifold"); Mx G = rect(s.y, n, p).t() * rect(m.x + s.eta, n, p); if (p == 2) sym_eq(G(0, 1), G(1, 0), "polar_factor_symmetric"); eqM(iv(s.E), e0, "step_unchanged"); eqM(m.ptv(s.X), m.x, "point_unchanged");
    }
    if (what == "inv") { Element X2 = m.X(), Y2 = m.pt(s.y), R = m.E(); m.M->InvRetraction(X2, Y2, &R); eqM(m.vecv(R), s.eta, "inverse_retraction"); }
    if (what == "vt")
    {
        Element U = rep(m, s.X, m.comb(Mx::sym("c", m.d()))), T = m.M->GetEMPTY(), R = m.M->GetEMPTY(); Mx u0 = iv(U); m.M->VectorTransport(s.X, s.E, s.Y, U, &T); m.tang(s.y, unrep(m, s.Y, T), "tangent");
        if (set == 3) { sym_eq(m.M->Metric(s.Y, T, T), m.M->Metric(s.X, U, U), "isometric"); m.M->InverseVectorTransport(s.X, s.E, s.Y, T, &R); eqM(iv(R), u0, "inverse"); }
    }
    if (what == "diffs")
    {
        double al = sym_pos("al"); sym_assume_ne(dot(s.eta, s.eta), 0); Element XI = rep(m, s.X, al * s.eta), D = m.M->GetEMPTY(); m.M->DiffRetraction(s.X, s.E, s.Y, XI, &D, true); Mx d = unrep(m, s.Y, D);
        std::vector<double> dd = sym_ddt([&](double t) { double q = 1 + al * t; polarstep(m, n, p, Q, q * om, q * k, vi); Element X = m.X(), Y = m.X(), E = rep(m, X, q * s.eta); m.M->Retraction(X, E, &Y); return m.ptv(Y).a; });
        Mx R(dd.size()); R.a = dd; eqM(d, R, "is_derivative");
    }
    if (what == "lock")
    {
        m.M->SetHasHHR(true); sym_div0_assume(true); Element D = m.M->GetEMPTY(), T = m.M->GetEMPTY(); Element XI = rep(m, s.X, 2. * s.eta); m.M->DiffRetraction(s.X, s.E, s.Y, XI, &D, true); double be = m.M->Beta(s.X, s.E);
        sym_eq(be * be * m.M->Metric(s.Y, D, D), 4 * m.M->Metric(s.X, s.E, s.E), "beta"); m.M->VectorTransport(s.X, s.E, s.Y, s.E, &T); eqM(iv(T), (.5 * be) * iv(D), "locking");
    }
}
namespace { struct Init
{
    Init()
    {
        using namespace std::placeholders;
        struct V { std::string nm; Mk mk; int flags; };
        // Stiefel: flags 1 intr, 2 isometric invertible transport
        for (int canon = 0; canon < 2; canon++) for (int sh = 0; sh < 3; sh++)
        {
            static const int N[] = {3, 2, 3}, P[] = {2, 2, 1}; int n = N[sh], p = P[sh]; std::string nm = sym_fmt("St%d%d%s", n, p, canon ? "c" : "e");
            Mk mk = [=](int b) { return mkStiefel(n, p, 1, canon, b); }; Mk mk2 = [=](int b) { return mkStiefel(n, p, 2, canon, b); };
            // the canonical metric is selectable by derived classes only, with the ambient representation
            reg("proj", nm, mk, -1, law_proj); if (!canon) { reg("intr", nm, mk, 3, law_intr); reg("metr", nm, mk, -1, law_metric); reg("metr", nm + "x", mk2, -1, law_metric); } else reg("metr", nm, mk2, -1, law_metric0);
            reg("grad", nm, mk, -1, [](const MD &m) { law_grad(m); }); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); });
            if (!canon) reg("rand", nm, mk, 1, law_rand);
            if (!canon) reg("intrn", nm, mk, -1, [=](const MD &m) { std::vector<Mx> Bn; for (int i = 0; i < p; i++) for (int j = 0; j <= i; j++) { Mx S(p, p); S(i, j) = S(j, i) = 1; Bn.push_back(flat(rect(m.x, n, p) * S)); } law_normal(m, Bn); });
        }
        for (int set = 1; set <= 5; set++) for (int sh = 0; sh < 2; sh++)
        {
            static const int N[] = {3, 2}, P[] = {2, 2}; int n = N[sh], p = P[sh]; std::string nm = sym_fmt("St%d%ds%d", n, p, set);
            Mk mk = [=](int b) { return mkStiefel(n, p, set, false, b); };
            if (set == 3 || set == 4) continue;
            reg("retr", nm, mk, 3, [](const MD &m) { law_retr(m, 1, 0); }); reg("retr2", nm, mk, 2, [](const MD &m) { law_retr(m, 2, 0); }, 1); reg("retr0", nm, mk, 3, law_retr_zero); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); });
            reg("vt", nm, mk, 2, [=](const MD &m) { law_vt(m, 1, set != 2, set != 2); }); reg("vt0", nm, mk, 3, law_vt_id);
            if (set != 5) reg("diff", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, false); }); reg("diffs", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, true); });
            reg("cot", nm, mk, 2, [=](const MD &m) { law_cot(m, 1); });
            reg("lock", nm, mk, 2, [=](const MD &m) { law_lock(m, 1); }, n == 3 && set != 5); reg("lockvt", nm, mk, 2, [=](const MD &m) { law_lockvt(m, 1, set != 2); }, n == 3 && set != 5);
            reg("ope", nm, mk, 1, law_ope); if (set == 1) reg("opetr", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, false); }); if (set == 1) reg("opetrl", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, true); }, n == 3);
        }

        static const char *PW[] = {"retr", "retrd", "inv", "vt", "diffs", "lock"};
        for (int set = 3; set <= 4; set++) for (int sh = 0; sh < 3; sh++) for (const char *w : PW)
        {
            static const int N[] = {3, 2, 3}, P[] = {2, 2, 1}; int n = N[sh], p = P[sh]; std::string what = w;
            sym_register_case(what + sym_fmt("_St%d%ds%d", n, p, set), [=]() { polar(what, n, p, set); sym_reach("end"); }, n == 3 && p == 2 && what != "retr" && what != "retrd" && !(what == "lock" && set == 4));
        }
        for (int set = 1; set <= 4; set++) for (int n = 2; n <= 3; n++)
        {
            std::string nm = sym_fmt("Sph%ds%d", n, set); Mk mk = [=](int b) { return mkSphere(n, set, b); };
            if (set == 1) reg("rand", nm, mk, 1, law_rand); reg("proj", nm, mk, -1, law_proj); if (set == 1) reg("intr", nm, mk, 3, law_intr); reg("metr", nm, mk, -1, law_metric);
            reg("retr", nm, mk, 3, [](const MD &m) { law_retr(m, 2, 0, false); }); reg("retr0", nm, mk, 3, law_retr_zero);
            if (set == 2) reg("retrd", nm, mk, 3, [](const MD &m) { Step s = step(m, 2); double q = std::sqrt(dot(s.eta, s.eta)); sym_assume_ne(q, 0); eqM(s.y, std::cos(q) * m.x + (std::sin(q) / q) * s.eta, "geodesic"); }); else reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 3); });
            if (set == 1) reg("intrn", nm, mk, -1, [](const MD &m) { law_normal(m, {m.x}); });
            reg("reuse", nm, mk, 2, [](const MD &m) { law_reuse(m, 1); });
            reg("vt", nm, mk, 2, [=](const MD &m) { if (set == 2) sym_div0_assume(true); law_vt(m, 1, true, true); }); reg("vt0", nm, mk, 3, law_vt_id);
            reg("diff", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, false); }); reg("diffs", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, true); });
            reg("cot", nm, mk, 2, [=](const MD &m) { if (set == 2) sym_div0_assume(true); law_cot(m, 1); });
            if (set <= 2) { reg("lock", nm, mk, 2, [=](const MD &m) { law_lock(m, 1); }); reg("lockvt", nm, mk, 2, [=](const MD &m) { law_lockvt(m, 1, true); }); }
            reg("ope", nm, mk, 1, law_ope); reg("opetr", nm, mk, 2, [=](const MD &m) { if (set == 2) sym_div0_assume(true); law_opetr(m, 1, false); }); if (set == 1) reg("opetrl", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, true); }, n == 3);
            reg("grad", nm, mk, -1, [](const MD &m) { law_grad(m); }); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); });
        }
        for (int intr = 0; intr < 2; intr++) for (int sh = 0; sh < 3; sh++)
        {
            static const int N[] = {2, 3, 4}, P[] = {1, 2, 2}; int n = N[sh], p = P[sh]; std::string nm = sym_fmt("Gr%d%d%s", n, p, intr ? "i" : "x"); Mk mk = [=](int b) { return mkGrass(n, p, intr, b); };
            if (!intr && sh < 2) reg("rand", nm, mk, 1, law_rand); reg("proj", nm, mk, -1, law_proj); reg("intr", nm, mk, 3, law_intr); reg("metr", nm, mk, 3, law_metric);
            int tr = sh == 2;
            reg("retr", nm, mk, 3, [](const MD &m) { law_retr(m, 1, 0, false); }, tr); reg("retr0", nm, mk, 3, law_retr_zero, tr); reg("retrd", nm, mk, 13, [](const MD &m) { law_retr_d(m, 2); }, tr);
            reg("reuse", nm, mk, 2, [](const MD &m) { law_reuse(m, 1); }, tr);
            reg("vt", nm, mk, 2, [=](const MD &m) { law_vt(m, 1, intr, intr); }, tr); reg("vt0", nm, mk, 3, law_vt_id, tr);
            if (intr) { reg("diff", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, false); }, tr); reg("diffs", nm, mk, 12, [=](const MD &m) { law_diff(m, 1, true); }, tr); reg("cot", nm, mk, 2, [=](const MD &m) { law_cot(m, 1); }, tr); }
            if (intr) { reg("lock", nm, mk, 2, [=](const MD &m) { law_lock(m, 1); }, tr); reg("lockvt", nm, mk, 2, [=](const MD &m) { law_lockvt(m, 1, true); }, tr); reg("opetr", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, false); }, tr); reg("opetrl", nm, mk, 2, [=](const MD &m) { law_opetr(m, 1, true); }, 1); }
            reg("grad", nm, mk, -1, [](const MD &m) { law_grad(m); }); reg("hess", nm, mk, 3, [](const MD &m) { law_hess(m); });
        }
        for (int cx = 0; cx < 2; cx++) for (int sh = 0; sh < 3; sh++)
        {
            static const int R[] = {2, 2, 1}, C[] = {1, 2, 2}, K[] = {1, 1, 2}; int r = R[sh], c = C[sh], k = K[sh]; std::string nm = sym_fmt("Euc%d%d%d%s", r, c, k, cx ? "c" : "r"); Mk mk = [=](int b) { return mkEuc(r, c, k, cx); };
            reg("rand", nm, mk, 1, law_rand); reg("proj", nm, mk, -1, law_proj); reg("intr", nm, mk, -1, law_intr); reg("metr", nm, mk, -1, law_metric);
            reg("retr", nm, mk, -1, [](const MD &m) { law_retr(m, 99, 0, false); Step s = step(m, 99); eqM(s.y, m.x + s.eta, "sum"); Element Y2 = m.pt(s.y); sym_eq(m.M->Dist(s.X, Y2) * m.M->Dist(s.X, Y2), dot(s.eta, s.eta), "dist"); }); reg("retr0", nm, mk, -1, law_retr_zero); reg("retrd", nm, mk, -1, [](const MD &m) { law_retr_d(m, 99); });
            reg("reuse", nm, mk, -1, [](const MD &m) { law_reuse(m, 99); });
            reg("vt", nm, mk, -1, [=](const MD &m) { law_vt(m, 99, true, true); }); reg("inv", nm, mk, -1, [](const MD &m) { law_inv(m, 99); });
            reg("diff", nm, mk, -1, [=](const MD &m) { law_diff(m, 99, false); }); reg("cot", nm, mk, -1, [=](const MD &m) { law_cot(m, 99); });
            reg("ope", nm, mk, -1, law_ope); reg("opetr", nm, mk, -1, [=](const MD &m) { law_opetr(m, 99, false); });
            reg("grad", nm, mk, -1, [](const MD &m) { law_grad(m); }); reg("hess", nm, mk, -1, [](const MD &m) { law_hess(m); });
        }
        for (int set = 1; set <= 5; set++) reg("reuse", sym_fmt("St32s%d", set), [=](int b) { return mkStiefel(3, 2, set, false, b); }, 2, [](const MD &m) { law_reuse(m, 1); }, 1);
    }
} init; }
