// Independent descriptions of the manifolds used in several harnesses.
#include "Manifolds/Stiefel.h"
#include "Manifolds/Sphere.h"
#include "Manifolds/Grassmann.h"
#include "Manifolds/Euclidean.h"
#include "Manifolds/SPDManifold.h"
#include "mani.h"
[[maybe_unused]] static Mx rect(const Mx &v, int r, int c) { Mx m(r, c); m.a = v.a; return m; }
[[maybe_unused]] static Mx flat(const Mx &v) { Mx m((int)v.a.size()); m.a = v.a; return m; }
// base: 0.. concrete rational bases, -1 a base with one symbolic parameter
[[maybe_unused]] static Mx baseQ(int n, int b) { return b < 0 ? givens(n, 0, n - 1, sym_real("bt")) * fixedrot(n, 1) : fixedrot(n, b); }
[[maybe_unused]] static Mx unitm(int r, int c, int i, int j) { Mx m(r, c); m(i, j) = 1; return m; }

[[maybe_unused]] static void stiefelcommon(MD &m, int n, int p, const Mx &Q, bool canon)
{
    Mx x = Q.col(0, p); m.x = flat(x);
    for (int a = 0; a < p; a++) for (int b = 0; b < a; b++) { Mx S(p, p); S(a, b) = 1; S(b, a) = -1; m.B.push_back(flat(x * S)); }
    if (n > p) { Mx xp = Q.col(p, n - p); for (int i = 0; i < n - p; i++) for (int j = 0; j < p; j++) m.B.push_back(flat(xp * unitm(n - p, p, i, j))); }
    m.onman = [n, p](const Mx &y, const char *l) { Mx Y = rect(y, n, p); Mx G = Y.t() * Y; for (int a = 0; a < p; a++) for (int b = 0; b <= a; b++) sym_eq(G(a, b), a == b, "%s", l); };
    m.tang = [n, p](const Mx &y, const Mx &e, const char *l) { Mx S = rect(y, n, p).t() * rect(e, n, p); for (int a = 0; a < p; a++) for (int b = 0; b <= a; b++) sym_eq(S(a, b) + S(b, a), 0, "%s", l); };
    if (canon) m.ip = [n, p](const Mx &y, const Mx &a, const Mx &b) { Mx Y = rect(y, n, p); return dot(a, b) - .5 * dot(Y.t() * rect(a, n, p), Y.t() * rect(b, n, p)); };
}
[[maybe_unused]] static MD mkStiefel(int n, int p, int set, bool canon, int b)
{
    MD m; auto S = std::make_shared<Stiefel>(n, p); m.M = S;
    switch (set) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; case 4: S->ChooseParamsSet4(); break; case 5: S->ChooseParamsSet5(); }
    if (canon) S->metric = STIE_CANONICAL;
    stiefelcommon(m, n, p, baseQ(n, b), canon); defaults(m); return m;
}
[[maybe_unused]] static MD mkSphere(int n, int set, int b)
{
    MD m; auto S = std::make_shared<Sphere>(n); m.M = S;
    switch (set) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; case 4: S->ChooseParamsSet4(); break; }
    stiefelcommon(m, n, 1, baseQ(n, b), false); defaults(m); return m;
}
[[maybe_unused]] static MD mkGrass(int n, int p, bool intr, int b)
{
    MD m; auto S = std::make_shared<Grassmann>(n, p); m.M = S; S->SetIsIntrApproach(intr);
    Mx Q = baseQ(n, b), x = Q.col(0, p), xp = Q.col(p, n - p); m.x = flat(x);
    for (int i = 0; i < n - p; i++) for (int j = 0; j < p; j++) m.B.push_back(flat(xp * unitm(n - p, p, i, j)));
    m.onman = [n, p](const Mx &y, const char *l) { Mx Y = rect(y, n, p); Mx G = Y.t() * Y; for (int a = 0; a < p; a++) for (int b = 0; b <= a; b++) sym_eq(G(a, b), a == b, "%s", l); };
    m.tang = [n, p](const Mx &y, const Mx &e, const char *l) { Mx S = rect(y, n, p).t() * rect(e, n, p); for (double v : S.a) sym_eq(v, 0, "%s", l); };
    m.hor = [n, p](const Mx &y, const Mx &v) { Mx Y = rect(y, n, p), V = rect(v, n, p); return flat(V - Y * (Y.t() * V)); };
    defaults(m); return m;
}
typedef std::function<MD(int)> Mk;     // argument: base
[[maybe_unused]] static void reg(const std::string &test, const std::string &nm, Mk mk, int nb, std::function<void(const MD &)> law, int tier = 0)
{
    sym_register_case(test + "_" + nm, [=]() { int b = nb < 0 ? -1 : nb > 10 ? 1 + sym_choice("base", nb - 10) : sym_choice("base", nb); MD m = mk(b); law(m); sym_reach("end"); }, tier);
}

[[maybe_unused]] static MD mkEuc(int r, int c, int num, bool cx)
{
    MD m; auto S = std::make_shared<Euclidean>(r, c, num, cx ? "complex" : "real"); m.M = S; int n = r * c * num * (cx ? 2 : 1);
    Element shape = S->GetEMPTYEXTR(); m.pt = [shape](const Mx &v) { Element e = shape; realdp *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < v.a.size(); i++) p[i] = v.a[i]; return e; };
    m.x = Mx::sym("x", n); for (int i = 0; i < n; i++) m.B.push_back(unitm(n, 1, i, 0));
    m.onman = [](const Mx &, const char *) {}; m.tang = [](const Mx &, const Mx &, const char *) {}; defaults(m); return m;
}
[[maybe_unused]] static void eqsym(const Mx &y, int n, const char *l) { for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) sym_eq(y(a + b * n), y(b + a * n), "%s", l); }

// ---------------------------------------------------------------- symmetric positive definite matrices
[[maybe_unused]] static Mx spdL(int n, int b)
{
    if (n == 1) { Mx l(1, 1); l(0, 0) = b < 0 ? sym_pos("bl") : b == 0 ? 1 : b == 1 ? 2 : .5; return l; }
    if (b < 0) { Mx l(2, 2); l(0, 0) = 2; l(1, 0) = sym_real("bl"); l(1, 1) = .5; return l; }
    if (n == 2) return b == 0 ? Mx::eye(2) : b == 1 ? Mx::lit(2, 2, {2, 0, -1, 3}) : Mx::lit(2, 2, {.5, 0, 3, 1});
    return b == 0 ? Mx::eye(3) : b == 1 ? Mx::lit(3, 3, {2, 0, 0, -1, 3, 0, .5, -2, 1}) : Mx::lit(3, 3, {1, 0, 0, 2, .5, 0, -1, 1, 2});
}
[[maybe_unused]] static MD mkSPD(int n, int set, int b)
{
    MD m; auto S = std::make_shared<SPDManifold>(n); m.M = S;
    switch (set) { case 1: S->ChooseParamsSet1(); break; case 2: S->ChooseParamsSet2(); break; case 3: S->ChooseParamsSet3(); break; case 4: S->ChooseParamsSet4(); break; }
    Mx L = spdL(n, b); m.x = flat(L * L.t()); bool af = set == 1 || set == 3; m.flat = set != 3;
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { Mx e(n, n); e(i, j) = e(j, i) = 1; m.B.push_back(flat(e)); }
    m.tang = [n](const Mx &, const Mx &e, const char *l) { eqsym(e, n, l); };
    m.onman = [n](const Mx &y, const char *l) { eqsym(y, n, l); sym_lt(0, y(0), "%s", l); if (n == 2) sym_lt(0, y(0) * y(3) - y(1) * y(2), "%s", l); };
    if (af) m.ip = [n](const Mx &x, const Mx &a, const Mx &b) { Mx X = inv(rect(x, n, n)); return tr(X * rect(a, n, n) * X * rect(b, n, n)); };
    m.symg = true; m.gw = [n](const Mx &) { Mx g = Mx::sym("g", n, n), w = Mx::sym("w", n, n); return std::make_pair(flat(symm(g)), flat(symm(w))); };
    defaults(m); return m;
}
