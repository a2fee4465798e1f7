// Driving the solvers: a manifold and a cost function that record every call. The cost function is unconstrained:
// its value, gradient and Hessian at every point visited are arbitrary, only the same at equal points.
#ifndef SOL_H
#define SOL_H
#include "Manifolds/Euclidean.h"
#include "Problems/Problem.h"
#include "ref.h"
#include <memory>
inline Mx rd(const Element &e) { Mx m(e.Getlength()); m.a = vals(e); return m; }
inline bool same(const Mx &a, const Mx &b)
{
    bool s = true; for (size_t i = 0; i < a.a.size() && s; i++) s = sym_same(a.a[i], b.a[i]);
    if (s) return true;
    for (size_t i = 0; i < a.a.size(); i++) if (sym_symbolic() ? a.a[i] != b.a[i] : std::fabs(a.a[i] - b.a[i]) > 1e-12 * (1 + std::fabs(b.a[i]))) return false;
    return true;
}
struct Pt { Mx x; bool f = false, g = false, h = false; double fv = 0; Mx gv, hv; };
struct RCall { Mx x, e, y; };
// Euclidean space R^n with the retraction x + e + k e*e, a metric that depends on the point (mw), an isometric vector transport
// (a rotation in orthonormal frames) and recorded calls
struct Space : public Euclidean
{
    double k = 0, beta = 1, mw = 0; bool thr = false; Mx Q; mutable std::vector<RCall> R; mutable int nT = 0, cap = 1000; bool lock = false; mutable std::function<void(const Mx &x, const Mx &e)> onR;
    Space(int n, double k_ = 0, double q = 0) : Euclidean(n), k(k_), Q(Mx::eye(n)) { if (q != 0 && n > 1) Q = givens(n, 0, 1, q); if (q != 0 && n == 1) Q(0, 0) = -1; }
    Mx ret(const Mx &x, const Mx &e) const { Mx y = x + e; if (k != 0) for (size_t i = 0; i < y.a.size(); i++) y.a[i] += k * e.a[i] * e.a[i]; return y; }
    Mx dret(const Mx &e, const Mx &v) const { Mx w = v; if (k != 0) for (size_t i = 0; i < w.a.size(); i++) w.a[i] *= 1 + 2 * k * e.a[i]; return w; }
    // the metric at x: diag(w, 1, ..., 1)^2
    Mx L(const Mx &x, int inverse = 0) const { Mx l = Mx::eye(Q.r); if (mw != 0) { l(0, 0) = 1 + mw * dot(x, x); if (inverse) l(0, 0) = 1 / l(0, 0); } return l; }
    Mx G(const Mx &x) const { return L(x) * L(x); }
    double ip(const Mx &x, const Mx &u, const Mx &v) const { return mw == 0 ? dot(u, v) : dot(L(x) * u, L(x) * v); }
    Mx T(const Mx &x, const Mx &y) const { return mw == 0 ? Q : L(y, 1) * Q * L(x); }
    Mx Ti(const Mx &x, const Mx &y) const { return mw == 0 ? Q.t() : L(x, 1) * Q.t() * L(y); }
    Mx tr(const Mx &x, const Mx &y, const Mx &v) const { return T(x, y) * v; }
    Mx cot(const Mx &x, const Mx &e, const Mx &y, const Mx &v) const { return mw == 0 ? dret(e, v) : L(x, 1) * (L(x, 1) * dret(e, G(y) * v)); }
    Mx tensor(const Mx &x, const Mx &u, const Mx &v) const { return mw == 0 ? u * v.t() : u * (G(x) * v).t(); }   // u <v, .>
    virtual realdp Metric(const Variable &x, const Vector &u, const Vector &v) const { if (thr) throw 1; return mw == 0 ? Euclidean::Metric(x, u, v) : ip(rd(x), rd(u), rd(v)); }
    virtual Vector &ObtainEtaxFlat(const Variable &x, const Vector &e, Vector *r) const { Mx v = G(rd(x)) * rd(e); return out(v, r); }
    virtual LinearOPE &HaddScaledRank1OPE(const Variable &x, const LinearOPE &H, realdp c, const Vector &e, const Vector &v, LinearOPE *r) const { Mx m = toM(H, Q.r, Q.r) + c * tensor(rd(x), rd(e), rd(v)); *r = H; out(m, r); return *r; }
    static Vector &out(const Mx &m, Vector *r) { realdp *p = r->ObtainWriteEntireData(); for (size_t i = 0; i < m.a.size(); i++) p[i] = m.a[i]; return *r; }
    virtual Variable &Retraction(const Variable &x, const Vector &e, Variable *r) const { Mx X = rd(x), E = rd(e), Y = ret(X, E); if ((int)R.size() >= cap) sym_stop(); R.push_back({X, E, Y}); if (onR) onR(X, E); *r = x; r->RemoveAllFromFields(); return out(Y, r); }
    virtual Vector &DiffRetraction(const Variable &, const Vector &e, const Variable &, const Vector &v, Vector *r, bool) const { Mx w = dret(rd(e), rd(v)); return out(w, r); }
    virtual Vector &coTangentVector(const Variable &x, const Vector &e, const Variable &y, const Vector &v, Vector *r) const { Mx u = cot(rd(x), rd(e), rd(y), rd(v)); return out(u, r); }
    virtual Vector &VectorTransport(const Variable &x, const Vector &, const Variable &y, const Vector &v, Vector *r) const { nT++; Mx u = tr(rd(x), rd(y), rd(v)); return out(u, r); }
    virtual Vector &InverseVectorTransport(const Variable &x, const Vector &, const Variable &y, const Vector &v, Vector *r) const { nT++; Mx u = Ti(rd(x), rd(y)) * rd(v); return out(u, r); }
    virtual LinearOPE &TranHInvTran(const Variable &x, const Vector &, const Variable &y, const LinearOPE &H, LinearOPE *r) const { Mx X = rd(x), Y = rd(y), m = T(X, Y) * toM(H, Q.r, Q.r) * Ti(X, Y); *r = H; out(m, r); return *r; }
    virtual realdp Beta(const Variable &, const Vector &) const { return beta; }
};
struct Cost : public Problem
{
    mutable std::vector<Pt> P; mutable int nf = 0, ng = 0, nh = 0; int n; Mx prec; bool hasp = false, distinct = false, posg = false;   // posg: no gradient is zero (dimension one)
    std::function<Mx(int)> grad, hess; std::function<double(int)> val;
    mutable std::vector<Mx> fx, gx;
    Cost(Space *S) : n(S->Q.r) { SetDomain(S); SetNumGradHess(false); }
    Space *S() const { return (Space *)Domain; }
    // distinct: points are told apart by their expressions (distinct expressions are assumed to be distinct points)
    bool eq(const Mx &a, const Mx &b) const { if (!distinct) return same(a, b); for (size_t i = 0; i < a.a.size(); i++) if (!sym_same(a.a[i], b.a[i])) return false; return true; }
    int at(const Mx &x) const { for (size_t i = 0; i < P.size(); i++) if (eq(x, P[i].x)) return i; Pt p; p.x = x; P.push_back(p); return P.size() - 1; }
    double F(int i) const { Pt &p = P[i]; if (!p.f) { p.f = true; p.fv = val ? val(i) : sym_real(sym_fmt("f%d", i).c_str()); } return p.fv; }
    Mx G(int i) const { Pt &p = P[i]; if (!p.g) { p.g = true; p.gv = grad ? grad(i) : Mx::sym(sym_fmt("g%d_", i).c_str(), n); if (posg) sym_assume_ne(p.gv(0), 0); } return p.gv; }
    Mx H(int i) const { Pt &p = P[i]; if (!p.h) { p.h = true; p.hv = Mx(n, n); if (hess) return p.hv = hess(i); for (int a = 0; a < n; a++) for (int b = a; b < n; b++) p.hv(a, b) = p.hv(b, a) = sym_real(sym_fmt("h%d_%d%d", i, a, b).c_str()); } return p.hv; }
    virtual realdp f(const Variable &x) const { nf++; Mx X = rd(x); fx.push_back(X); return F(at(X)); }
    virtual Vector &EucGrad(const Variable &x, Vector *r) const { ng++; Mx X = rd(x); gx.push_back(X); return Space::out(G(at(X)), r); }
    virtual Vector &EucHessianEta(const Variable &x, const Vector &e, Vector *r) const { nh++; Mx E = rd(e); return Space::out(H(at(rd(x))) * E, r); }
    virtual Vector &PreConditioner(const Variable &x, const Vector &e, Vector *r) const { if (!hasp) { *r = e; return *r; } Mx E = rd(e); return Space::out(prec * E, r); }
};
inline double nrm2(const Mx &v) { return dot(v, v); }
#endif
