// Dense tensors (Element): every algebraic operation equals its documented entrywise / matrix formula, real and complex,
// whatever the operands share, and leaves its operands alone.
#include "prelude.h"
#include "cref.h"
namespace {
struct Shp { int r, c; };
Shp shp(int k) { static const Shp s[] = {{2, 2}, {1, 1}, {3, 1}, {1, 2}, {3, 2}, {2, 3}}; return s[k]; }
realdpcomplex cz(double a, double b) { realdpcomplex z; z.r = a; z.i = b; return z; }
// two operands of the same shape: 0 separate, 1 second is a copy sharing memory with the first, 2 the same variable
struct Ops
{
    Element a, b; CM A, B, sa, sb; bool same; Element *pb; Element keep; int mode;
    Ops(int r, int c, bool cx, int alias, bool fields = true) : mode(alias)
    {
        A = CM::sym("a", r, c, cx); a = el(A);
        if (alias == 0) { B = CM::sym("b", r, c, cx); b = el(B); } else { B = A; b = a; }
        if (fields) { Element F(1); F.ObtainWriteEntireData()[0] = 7; a.AddToFields("f", F); if (alias != 2) { Element G(1); G.ObtainWriteEntireData()[0] = 5; b.AddToFields("g", G); } }
        keep = a; pb = alias == 2 ? &a : &b;
    }
    void unchanged(const char *l)
    {
        eqC(a, A, sym_fmt("%s:left_unchanged", l).c_str()); eqC(*pb, B, sym_fmt("%s:right_unchanged", l).c_str()); eqC(keep, A, sym_fmt("%s:copy_unchanged", l).c_str());
        if (a.FieldsExist("f")) sym_eq(a.Field("f").ObtainReadData()[0], 7, "%s:attached", l);
    }
    void copykept(const char *l) { eqC(keep, A, sym_fmt("%s:copy_unchanged", l).c_str()); if (mode == 1) eqC(b, B, sym_fmt("%s:right_unchanged", l).c_str()); }
    bool clean(const Element &e, const char *l) { sym_true(!e.FieldsExist("f") && !e.FieldsExist("g"), "%s:result_carries_no_old_data", l); return true; }
};
typedef std::function<void(bool cx, int s, int al)> Body;
void reg(const char *nm, int ns, int na, int cxs, Body f, int tier = 0)
{ for (int cx = 0; cx < 2; cx++) if (cxs >> cx & 1) sym_register_case(sym_fmt("alg_%s%s", nm, cx ? "_cx" : ""), [=]() { sym_div0_assume(true); f(cx, sym_choice("shape", ns), na > 1 ? sym_choice("alias", na) : 0); }, tier); }
enum { R = 1, C = 2, RC = 3 };
struct Init
{
    Init()
    {
        reg("add", 6, 3, RC, [](bool cx, int s, int al) { Shp q = shp(s); Ops o(q.r, q.c, cx, al); Element z = o.a + *o.pb; eqC(z, o.A + o.B, "add"); o.clean(z, "add"); o.unchanged("add"); });
        reg("sub", 6, 3, RC, [](bool cx, int s, int al) { Shp q = shp(s); Ops o(q.r, q.c, cx, al); Element z = o.a - *o.pb; eqC(z, o.A - o.B, "sub"); o.clean(z, "sub"); o.unchanged("sub"); });
        reg("addeq", 6, 3, RC, [](bool cx, int s, int al) { Shp q = shp(s); Ops o(q.r, q.c, cx, al); Element &z = (o.a += *o.pb); eqC(o.a, o.A + o.B, "addeq"); eqC(z, o.A + o.B, "addeq:returned"); o.clean(o.a, "addeq"); o.copykept("addeq"); if (al == 0) eqC(o.b, o.B, "addeq:right_unchanged"); });
        reg("subeq", 6, 3, RC, [](bool cx, int s, int al) { Shp q = shp(s); Ops o(q.r, q.c, cx, al); Element &z = (o.a -= *o.pb); eqC(o.a, o.A - o.B, "subeq"); eqC(z, o.A - o.B, "subeq:returned"); o.clean(o.a, "subeq"); o.copykept("subeq"); if (al == 0) eqC(o.b, o.B, "subeq:right_unchanged"); });
        reg("scalar", 6, 2, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); Ops o(q.r, q.c, cx, al); double u = sym_real("u"), v = cx ? sym_real("v") : 0; realdpcomplex w = cz(u, v);
            CM S = scal(u, v, o.A), P = o.A, Mn = o.A, Nm = o.A; for (int i = 0; i < P.n(); i++) { P.re[i] += u; Mn.re[i] -= u; Nm.re[i] = u - Nm.re[i]; if (cx) { P.im[i] += v; Mn.im[i] -= v; Nm.im[i] = v - Nm.im[i]; } }
            Element z;
            z = cx ? w * o.a : u * o.a; eqC(z, S, "scalar_times"); o.clean(z, "scalar_times"); z = cx ? o.a * w : o.a * u; eqC(z, S, "times_scalar");
            z = cx ? o.a + w : o.a + u; eqC(z, P, "plus_scalar"); o.clean(z, "plus_scalar"); z = cx ? w + o.a : u + o.a; eqC(z, P, "scalar_plus");
            z = cx ? o.a - w : o.a - u; eqC(z, Mn, "minus_scalar"); z = cx ? w - o.a : u - o.a; eqC(z, Nm, "scalar_minus"); o.clean(z, "scalar_minus"); o.unchanged("scalar");
        });
        reg("scalardiv", 6, 1, RC, [](bool cx, int s, int)
        {
            Shp q = shp(s); Ops o(q.r, q.c, cx, 0); double u = sym_real("u"), v = cx ? sym_real("v") : 0; realdpcomplex w = cz(u, v);
            CM W(q.r, q.c, cx); for (int i = 0; i < W.n(); i++) { W.re[i] = u; W.im[i] = v; }
            Element z = cx ? o.a / w : o.a / u; eqC(z, hadamdiv(o.A, W), "over_scalar"); o.clean(z, "over_scalar"); z = cx ? w / o.a : u / o.a; eqC(z, hadamdiv(W, o.A), "scalar_over"); o.unchanged("scalardiv");
        });
        reg("matmul", 6, 3, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); if (al == 0 || q.r != q.c) { CM A = CM::sym("a", q.r, q.c, cx), B = CM::sym("b", q.c, al == 2 ? 3 : q.r, cx); Element a = el(A), b = el(B), z = a * b; eqC(z, A * B, "matmul"); eqC(a, A, "matmul:left_unchanged"); eqC(b, B, "matmul:right_unchanged"); return; }
            Ops o(q.r, q.c, cx, al); Element z = o.a * *o.pb; eqC(z, o.A * o.B, "matmul"); o.clean(z, "matmul"); o.unchanged("matmul"); Element y = o.a; y = y * y; eqC(y, o.A * o.A, "matmul:own_square"); o.unchanged("matmul");
        });
        reg("gemm", 4, 3, RC, [](bool cx, int s, int al)
        {
            int m = s == 0 ? 2 : s == 1 ? 1 : s == 2 ? 3 : 2, n = s == 1 ? 2 : 2, k = s == 2 ? 1 : s == 1 ? 3 : 2; char *tr[] = {GLOBAL::N, GLOBAL::T, GLOBAL::C}; int ta = sym_choice("ta", cx ? 3 : 2), tb = sym_choice("tb", cx ? 3 : 2);
            CM A = CM::sym("a", ta ? k : m, ta ? m : k, cx), B = CM::sym("b", tb ? n : k, tb ? k : n, cx), D = CM::sym("d", m, n, cx); Element a = el(A), b = el(B), d = el(D), keep = d;
            Element F(1); F.ObtainWriteEntireData()[0] = 7; d.AddToFields("f", F); bool sq = s == 0; CM Bv = B; Element *pa = &a, *pb = &b;
            if (sq && al == 1) { pb = &a; Bv = A; }
            auto opn = [](const CM &x, int t) { return t == 0 ? x : t == 1 ? x.t() : x.h(); };
            if (al == 2) { double u = sym_real("u"), v = cx ? sym_real("v") : 0; if (cx) d.AlphaABaddBetaThis(cz(u, v), *pa, tr[ta], *pb, tr[tb], cz(v, u)); else d.AlphaABaddBetaThis(u, *pa, tr[ta], *pb, tr[tb], 3.); eqC(d, scal(u, v, opn(A, ta) * opn(Bv, tb)) + (cx ? scal(v, u, D) : scal(3, 0, D)), "gemm_general"); }
            else { d.AlphaABaddBetaThis(2., *pa, tr[ta], *pb, tr[tb], -1.); eqC(d, scal(2, 0, opn(A, ta) * opn(Bv, tb)) - D, "gemm"); }
            sym_true(!d.FieldsExist("f"), "gemm:result_carries_no_old_data"); eqC(keep, D, "gemm:copy_unchanged"); eqC(a, A, "gemm:left_unchanged"); eqC(b, B, "gemm:right_unchanged");
            Element e; e = Element(m, n, 1, cx); e.SetToZeros(); if (!cx) { e.AlphaABaddBetaThis(1., *pa, tr[ta], *pb, tr[tb], 0.); eqC(e, opn(A, ta) * opn(Bv, tb), "gemm_overwrite"); }
        });
        reg("axpy", 6, 3, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); Ops o(q.r, q.c, cx, al); double u = sym_real("u"), v = cx ? sym_real("v") : 0; Element *z;
            if (cx && sym_choice("scalar", 2)) z = &o.a.AlphaXaddThis(cz(u, v), *o.pb); else { v = 0; z = &o.a.AlphaXaddThis(u, *o.pb); }
            CM X = o.A + scal(u, v, o.B); eqC(o.a, X, "axpy"); sym_true(z == &o.a, "axpy:returned"); o.clean(o.a, "axpy"); o.copykept("axpy"); if (al == 0) eqC(o.b, o.B, "axpy:right_unchanged");
        });
        reg("scal", 6, 2, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); Ops o(q.r, q.c, cx, al); double u = sym_real("u"), v = cx ? sym_real("v") : 0; Element *z; if (cx && sym_choice("scalar", 2)) z = &o.a.ScalarTimesThis(cz(u, v)); else { v = 0; z = &o.a.ScalarTimesThis(u); }
            eqC(o.a, scal(u, v, o.A), "scal"); sym_true(z == &o.a, "scal:returned"); o.clean(o.a, "scal"); o.copykept("scal");
        });
        reg("dot", 6, 3, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); Ops o(q.r, q.c, cx, al); double d = 0, f = 0; for (int i = 0; i < o.A.n(); i++) { d += o.A.re[i] * o.B.re[i] + (cx ? o.A.im[i] * o.B.im[i] : 0); f += o.A.re[i] * o.A.re[i] + (cx ? o.A.im[i] * o.A.im[i] : 0); }
            sym_eq(o.a.DotProduct(*o.pb), d, "dot"); double nf = o.a.Fnorm(); sym_eq(nf * nf, f, "Fnorm"); sym_le(0, nf, "Fnorm_nonneg"); o.unchanged("dot");
            Element n = o.a.GetColNormsSquare(), g = o.a.GetColDotProducts(*o.pb); CM N(1, q.c), G(1, q.c); for (int j = 0; j < q.c; j++) for (int i = 0; i < q.r; i++) { int k = i + j * q.r; N.re[j] += o.A.re[k] * o.A.re[k] + (cx ? o.A.im[k] * o.A.im[k] : 0); G.re[j] += o.A.re[k] * o.B.re[k] + (cx ? o.A.im[k] * o.B.im[k] : 0); }
            eqC(n, N, "ColNormsSquare"); eqC(g, G, "ColDotProducts"); o.unchanged("coldots");
        });
        reg("hadamard", 6, 3, RC, [](bool cx, int s, int al)
        { Shp q = shp(s); Ops o(q.r, q.c, cx, al); Element z = o.a.GetHadamardProduct(*o.pb); eqC(z, hadam(o.A, o.B), "hadamard"); o.clean(z, "hadamard"); Element y = o.a.GetHadamardDivision(*o.pb); eqC(y, hadamdiv(o.A, o.B), "hadamard_division"); o.clean(y, "hadamard_division"); o.unchanged("hadamard"); });
        reg("diag", 4, 2, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s == 3 ? 5 : s == 2 ? 4 : s); CM D = CM::sym("d", q.r, 1, cx), E = CM::sym("e", q.c, 1, cx), A = CM::sym("a", q.r, q.c, cx); Element d = el(D), e = el(E), a = el(A), keep = a;
            if (al == 0) { eqC(d.GetDiagTimesM(a), diagc(D) * A, "diag_left"); eqC(d.GetDiagTimesM(a, GLOBAL::L), diagc(D) * A, "diag_left"); eqC(e.GetDiagTimesM(a, GLOBAL::R), A * diagc(E), "diag_right"); eqC(a, A, "diag:argument_unchanged"); }
            else { Element F(1); F.ObtainWriteEntireData()[0] = 7; a.AddToFields("f", F); Element *z = &d.DiagTimesM(a); eqC(a, diagc(D) * A, "diag_in_place_left"); sym_true(z == &a && !a.FieldsExist("f"), "diag_in_place_left:returned"); z = &e.DiagTimesM(a, GLOBAL::R); eqC(a, diagc(D) * A * diagc(E), "diag_in_place_right"); sym_true(z == &a, "diag_in_place_right:returned"); eqC(keep, A, "diag_in_place:copy_unchanged"); }
            eqC(d, D, "diag:diag_unchanged"); eqC(e, E, "diag:diag_unchanged");
        });
        reg("rankone", 6, 2, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); CM U = CM::sym("u", q.r, 1, cx), V = al && q.r == q.c ? U : CM::sym("v", q.c, 1, cx), A = CM::sym("a", q.r, q.c, cx); Element u = el(U), v = al && q.r == q.c ? u : el(V), a = el(A), keep = a; double x = sym_real("x"), y = cx ? sym_real("y") : 0;
            CM Z = A + scal(x, y, U * V.t()); Element z = cx ? a.GetHaddRankone(cz(x, y), u, v) : a.GetHaddRankone(x, u, v); eqC(z, Z, "rankone"); eqC(a, A, "rankone:unchanged");
            Element F(1); F.ObtainWriteEntireData()[0] = 7; a.AddToFields("f", F); Element *p = cx ? &a.HaddRankone(cz(x, y), u, v) : &a.HaddRankone(x, u, v); eqC(a, Z, "rankone_in_place"); sym_true(p == &a && !a.FieldsExist("f"), "rankone_in_place:returned"); eqC(keep, A, "rankone:copy_unchanged"); eqC(u, U, "rankone:arguments_unchanged"); eqC(v, V, "rankone:arguments_unchanged");
        });
        reg("reflect", 6, 1, RC, [](bool cx, int s, int)
        {
            Shp q = shp(s); CM U = CM::sym("u", q.r, 1, cx), V = CM::sym("v", q.c, 1, cx), A = CM::sym("a", q.r, q.c, cx); Element u = el(U), v = el(V), a = el(A); double x = sym_real("x"), y = cx ? sym_real("y") : 0;
            Element l = cx ? a.GetHtimesRankone(cz(x, y), u) : a.GetHtimesRankone(x, u), r = cx ? a.GetHtimesRankone(cz(x, y), v, GLOBAL::R) : a.GetHtimesRankone(x, v, GLOBAL::R);
            eqC(l, A - scal(x, y, U * (U.h() * A)), "reflect_left"); eqC(r, A - scal(x, y, (A * V) * V.h()), "reflect_right"); eqC(a, A, "reflect:unchanged"); eqC(u, U, "reflect:unchanged");
        });
        reg("maxmin", 4, 3, R, [](bool, int s, int al)
        {
            Shp q = shp(s); Ops o(q.r, q.c, false, al); Element M = o.a.GetMax(*o.pb), m = o.a.GetMin(*o.pb); const realdp *p = M.ObtainReadData(), *r = m.ObtainReadData();
            for (int i = 0; i < o.A.n(); i++) { bool g = o.A.re[i] >= o.B.re[i]; sym_eq(p[i], g ? o.A.re[i] : o.B.re[i], "max"); sym_eq(r[i], g ? o.B.re[i] : o.A.re[i], "min"); } o.clean(M, "max"); o.clean(m, "min"); o.unchanged("maxmin");
        });
        reg("maxminscalar", 4, 1, R, [](bool, int s, int)
        {
            Shp q = shp(s); Ops o(q.r, q.c, false, 0); double u = sym_real("u"); Element M = o.a.GetMax(u), m = o.a.GetMin(u); const realdp *p = M.ObtainReadData(), *r = m.ObtainReadData();
            for (int i = 0; i < o.A.n(); i++) { bool g = o.A.re[i] >= u; sym_eq(p[i], g ? o.A.re[i] : u, "max_scalar"); sym_eq(r[i], g ? u : o.A.re[i], "min_scalar"); } o.clean(M, "max_scalar"); o.unchanged("maxminscalar");
        });
        reg("abssqrt", 6, 1, R, [](bool, int s, int)
        {
            Shp q = shp(s); Ops o(q.r, q.c, false, 0); if (o.A.n() <= 4) { Element b = o.a.GetAbs(); for (int i = 0; i < o.A.n(); i++) sym_eq(b.ObtainReadData()[i], o.A.re[i] < 0 ? -o.A.re[i] : o.A.re[i], "abs"); o.clean(b, "abs"); }
            CM P(q.r, q.c); for (int i = 0; i < P.n(); i++) P.re[i] = sym_pos(sym_fmt("p%d", i).c_str()); Element p = el(P), t = p.GetSqrt(); for (int i = 0; i < P.n(); i++) { double w = t.ObtainReadData()[i]; sym_eq(w * w, P.re[i], "sqrt"); sym_le(0, w, "sqrt_sign"); } eqC(p, P, "sqrt:unchanged"); o.unchanged("abs");
        });
        for (int k = 0; k < 5; k++)
            reg(sym_fmt("compare%d", k).c_str(), 4, 3, R, [k](bool, int s, int al)
            {
                Shp q = shp(s); Ops o(q.r, q.c, false, al == 2 ? 1 : 0); double u = sym_real("u"); auto f = [k](double x, double y) { return k == 0 ? x == y : k == 1 ? x > y : k == 2 ? x >= y : k == 3 ? x < y : x <= y; };
                if (al == 0)
                {
                    Element l = k == 0 ? (o.a == u) : k == 1 ? (o.a > u) : k == 2 ? (o.a >= u) : k == 3 ? (o.a < u) : (o.a <= u); for (int i = 0; i < o.A.n(); i++) sym_eq(l.ObtainReadData()[i], f(o.A.re[i], u) ? 1. : 0., "compare_element_scalar");
                    Element r = k == 0 ? (u == o.a) : k == 1 ? (u > o.a) : k == 2 ? (u >= o.a) : k == 3 ? (u < o.a) : (u <= o.a); for (int i = 0; i < o.A.n(); i++) sym_eq(r.ObtainReadData()[i], f(u, o.A.re[i]) ? 1. : 0., "compare_scalar_element");
                    o.clean(l, "compare"); o.clean(r, "compare");
                }
                else { Element e = k == 0 ? (o.a == o.b) : k == 1 ? (o.a > o.b) : k == 2 ? (o.a >= o.b) : k == 3 ? (o.a < o.b) : (o.a <= o.b); for (int i = 0; i < o.A.n(); i++) sym_eq(e.ObtainReadData()[i], f(o.A.re[i], o.B.re[i]) ? 1. : 0., "compare_elements"); o.clean(e, "compare"); }
                o.unchanged("compare");
            });
        reg("submatrix", 3, 3, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s == 0 ? 4 : s == 1 ? 5 : 0); Ops o(q.r, q.c, cx, al ? 1 : 0); int r0 = sym_choice("r0", q.r), r1 = r0 + sym_choice("rn", q.r - r0), c0 = sym_choice("c0", q.c), c1 = c0 + sym_choice("cn", q.c - c0), nr = r1 - r0 + 1, nc = c1 - c0 + 1;
            Element z = o.a.GetSubmatrix(r0, r1, c0, c1); eqC(z, o.A.sub(r0, nr, c0, nc), "submatrix"); o.clean(z, "submatrix"); o.unchanged("submatrix");
            CM W = CM::sym("w", nr, nc, cx), X = o.A; for (int j = 0; j < nc; j++) for (int i = 0; i < nr; i++) { X.re[r0 + i + (c0 + j) * q.r] = W.re[i + j * nr]; X.im[r0 + i + (c0 + j) * q.r] = W.im[i + j * nr]; }
            Element w = el(W); Element y = o.a.SubmatrixAssignment(r0, r1, c0, c1, w); eqC(o.a, X, "submatrix_assignment"); eqC(y, X, "submatrix_assignment:returned"); o.clean(o.a, "submatrix_assignment"); o.copykept("submatrix_assignment"); eqC(w, W, "submatrix_assignment:argument_unchanged");
        });
        reg("transpose", 6, 2, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); Ops o(q.r, q.c, cx, al); Element z = o.a.GetTranspose(); eqC(z, o.A.h(), "transpose"); o.clean(z, "transpose"); o.unchanged("transpose");
            if (cx) { Element g = o.a.GetConj(); eqC(g, o.A.conj(), "conj"); o.clean(g, "conj"); o.unchanged("conj"); Element r = o.a.GetRealInComplex(), i = o.a.GetImagInComplex(); CM Re = o.A, Im = o.A; Re.cx = Im.cx = false; Im.re = o.A.im; eqC(r, Re, "real_part"); eqC(i, Im, "imaginary_part"); o.unchanged("parts"); Element c = r.GetRealToComplex(); CM Rc = Re; Rc.cx = true; for (auto &t : Rc.im) t = 0; eqC(c, Rc, "real_to_complex"); }
            Element y; if (cx && sym_choice("conj", 2)) { y = o.a.Conj(); eqC(o.a, o.A.conj(), "conj_in_place"); } else { y = o.a.Transpose(); eqC(o.a, o.A.h(), "transpose_in_place"); } eqEE(y, o.a, "in_place:returned"); o.clean(o.a, "in_place"); o.copykept("in_place");
        });
        reg("reshape", 6, 2, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); Ops o(q.r, q.c, cx, al); CM X = o.A; X.r = q.c; X.c = q.r; Element z = o.a.GetReshape(q.c, q.r); eqC(z, X, "reshape"); o.clean(z, "reshape"); CM V = o.A; V.r = q.r * q.c; V.c = 1; eqC(o.a.GetReshape(q.r * q.c), V, "reshape_vector"); o.unchanged("reshape");
            Element t = o.a.GetReshape(1, q.r, q.c); sym_true(t.Getrow() == 1 && t.Getcol() == q.r && t.Getnum() == q.c, "reshape_tensor"); Element *p = &o.a.Reshape(q.c, q.r); eqC(o.a, X, "reshape_in_place"); sym_true(p == &o.a, "reshape_in_place:returned"); o.clean(o.a, "reshape_in_place"); o.copykept("reshape_in_place");
            realdp *w = z.ObtainWritePartialData(); w[0] = 0; eqC(o.a, X, "reshape:writing_a_copy");
        });
        reg("constants", 6, 2, RC, [](bool cx, int s, int al)
        {
            Shp q = shp(s); Ops o(q.r, q.c, cx, al); int k = sym_choice("what", q.r == q.c ? 3 : 2); CM Z(q.r, q.c, cx);
            if (k == 0) o.a.SetToZeros(); else if (k == 1) { o.a.SetToIdentity(); for (int i = 0; i < q.r && i < q.c; i++) Z.re[i + i * q.r] = 1; } else { double u = sym_real("u"); o.a.ScaledIdOPE(u); for (int i = 0; i < q.r; i++) Z.re[i + i * q.r] = u; }
            eqC(o.a, Z, k == 0 ? "zeros" : k == 1 ? "identity" : "scaled_identity"); o.clean(o.a, "constants"); o.copykept("constants");
        });
        // tensors with three dimensions
        reg("tensor", 1, 1, RC, [](bool cx, int, int)
        {
            CM A = CM::sym("a", 1, 4, cx), B = CM::sym("b", 1, 4, cx); Element a(1, 2, 2, cx), b(1, 2, 2, cx); put(a, A); put(b, B); double u = sym_real("u");
            auto chk = [&](const Element &z, const CM &Z, const char *l) { eqC(z, Z, l); sym_true(z.Getrow() == 1 && z.Getcol() == 2 && z.Getnum() == 2, "%s:tensor_shape", l); };
            chk(a + b, A + B, "tensor_add"); chk(a - b, A - B, "tensor_sub"); chk(u * a, scal(u, 0, A), "tensor_scal"); chk(a.GetHadamardProduct(b), hadam(A, B), "tensor_hadamard"); chk(a.GetHadamardDivision(b), hadamdiv(A, B), "tensor_hadamard_division");
            double d = 0; for (int i = 0; i < 4; i++) d += A.re[i] * B.re[i] + (cx ? A.im[i] * B.im[i] : 0); sym_eq(a.DotProduct(b), d, "tensor_dot"); a.AlphaXaddThis(u, b); chk(a, A + scal(u, 0, B), "tensor_axpy"); a.SetToZeros(); chk(a, CM(1, 4, cx), "tensor_zeros");
            if (cx) { CM Re = B, Im = B; Re.cx = Im.cx = false; Im.re = B.im; chk(b.GetRealInComplex(), Re, "tensor_real_part"); chk(b.GetImagInComplex(), Im, "tensor_imaginary_part"); } else { CM Cc = B; Cc.cx = true; chk(b.GetRealToComplex(), Cc, "tensor_complex"); }
        });
    }
} initalg;
}
