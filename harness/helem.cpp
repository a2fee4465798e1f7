// Dense tensors (Element): value semantics under shared memory, attached data, products of elements.
#include "prelude.h"
#include "ref.h"
namespace {
const int M = 3;
struct Sh { bool alloc = true; int r = 2, c = 2; Mx v; std::map<std::string, Mx> f; };
struct Pool { Element e[M]; Sh s[M]; int fresh = 0; };
Mx newm(Pool &p, int r, int c) { return Mx::sym(sym_fmt("v%d_", p.fresh++).c_str(), r, c); }
void fill(Element &e, const Mx &m) { realdp *q = e.ObtainWriteEntireData(); for (size_t i = 0; i < m.a.size(); i++) q[i] = m.a[i]; }
void check(const Pool &p, const char *l)
{
    for (int i = 0; i < M; i++)
    {
        const Element &e = p.e[i]; const Sh &s = p.s[i];
        if (!s.alloc) { sym_true(e.ObtainReadData() == nullptr, "%s:empty", l); continue; }
        sym_true(e.Getrow() == s.r && e.Getcol() == s.c && e.Getnum() == 1 && e.Getlength() == s.r * s.c, "%s:shape", l);
        sym_true(e.ObtainReadData() != nullptr, "%s:allocated", l); eqE(e, s.v, sym_fmt("%s:value", l).c_str());
        for (const char *nm : {"f", "g"})
        {
            auto it = s.f.find(nm); sym_true(e.FieldsExist(nm) == (it != s.f.end()), "%s:attached", l);
            if (it != s.f.end()) eqE(e.Field(nm), it->second, sym_fmt("%s:attached_value", l).c_str());
        }
    }
}
void init(Pool &p, int cfg)
{
    for (int i = 0; i < M; i++) { p.e[i] = Element(2, 2); p.s[i].v = newm(p, 2, 2); fill(p.e[i], p.s[i].v); }
    auto asg = [&](int a, int b) { p.e[a] = p.e[b]; p.s[a] = p.s[b]; };
    auto field = [&](int a, const char *nm) { Mx w = newm(p, 2, 1); Element F = toE(w); p.e[a].AddToFields(nm, F); p.s[a].f[nm] = w; };
    switch (cfg)
    {
    case 0: break;
    case 1: asg(1, 0); break;
    case 2: asg(1, 0); asg(2, 0); break;
    case 3: field(0, "f"); asg(1, 0); break;
    case 4: field(1, "f"); field(1, "g"); field(0, "f"); break;
    case 5: p.e[1] = p.e[0].GetReshape(4, 1); p.s[1] = p.s[0]; p.s[1].r = 4; p.s[1].c = 1; break;
    case 6: p.e[2] = Element(2, 2); p.s[2].alloc = false; { Element t(2, 2); p.e[2].Delete(); p.e[2] = t; } break;
    case 7: asg(1, 0); field(1, "f"); field(2, "g"); break;
    case 8: p.e[0].AddToFields("f", p.e[1]); p.s[0].f["f"] = p.s[1].v; asg(2, 0); break;
    }
}
enum { NOPS = 22 };
void op(Pool &p, int k, int a, int b)
{
    Element &A = p.e[a], &B = p.e[b]; Sh &sa = p.s[a]; Sh sb = p.s[b];
    auto wr = [&]() { sa.f.clear(); sa.alloc = true; };
    bool ok = sa.alloc && sb.alloc, same = sa.r == sb.r && sa.c == sb.c;
    switch (k)
    {
    case 0: A = B; sa = sb; break;
    case 1: B.CopyTo(A); sa = sb; break;
    case 2: { Element T(B); if (sb.alloc) T.ScalarTimesThis(2.); if (sb.alloc) { A = T; sa = sb; sa.v = 2. * sb.v; sa.f.clear(); } break; }
    case 3: { Mx w = newm(p, sa.r, sa.c); fill(A, w); wr(); sa.v = w; break; }
    case 4: { if (!sa.alloc) break; realdp *q = A.ObtainWritePartialData(); double z = sym_real(sym_fmt("z%d", p.fresh++).c_str()); q[1] = z; wr(); sa.v.a[1] = z; break; }
    case 5: { if (!sa.alloc) break; double z = sym_real(sym_fmt("z%d", p.fresh++).c_str()); A.ScalarTimesThis(z); wr(); sa.v = z * sa.v; break; }
    case 6: { if (!ok) break; double z = sym_real(sym_fmt("z%d", p.fresh++).c_str()); A.AlphaXaddThis(z, B); wr(); sa.v = sa.v + z * sb.v; break; }
    case 7: { if (!ok || a == b || sa.r != 2 || sb.r != 2) break; int c = 3 - a - b; if (a == b || p.s[c].r != 2 || !p.s[c].alloc || c == a) break; Mx C = p.s[c].v; A.AlphaABaddBetaThis(2., B, GLOBAL::N, p.e[c], GLOBAL::T, -1.); wr(); sa.v = 2. * (sb.v * C.t()) - sa.v; break; }
    case 8: { if (!sa.alloc) break; Mx t(sa.r, sa.c); t.a = sa.v.a; A.Transpose(); wr(); t = t.t(); sa.v = t; std::swap(sa.r, sa.c); break; }
    case 9: A.SetToZeros(); wr(); sa.v = Mx(sa.r, sa.c); break;
    case 10: if (sa.r != sa.c) break; A.ScaledIdOPE(3.); wr(); sa.v = 3. * Mx::eye(2); break;
    case 11: if (sa.r != sa.c) break; A.SetToIdentity(); wr(); sa.v = Mx::eye(2); break;
    case 12: if (!sa.alloc) break; A.Reshape(1, 4); sa.f.clear(); sa.r = 1; sa.c = 4; break;
    case 13: if (!ok) break; A = B.GetReshape(4, 1); sa = sb; sa.f.clear(); sa.r = 4; sa.c = 1; break;
    case 14: if (!ok || a == b) break; A.AddToFields("f", B); sa.f["f"] = sb.v; break;
    case 15: if (!sa.f.count("f")) break; A.Field("f").ScalarTimesThis(2.); sa.f["f"] = 2. * sa.f["f"]; break;
    case 16: A.RemoveFromFields("f"); sa.f.erase("f"); break;
    case 17: { if (a == b || !sb.alloc) break; A.Delete(); A = B; sa = sb; break; }
    case 18: { if (!ok || !same) break; A += B; wr(); sa.v = sa.v + sb.v; break; }
    case 19: { if (!ok || !same) break; A = 2. * A - B; wr(); sa.v = 2. * sa.v - sb.v; break; }
    case 20: { if (!sa.alloc || sa.r != 2 || sa.c != 2) break; Mx w = newm(p, 1, 2); Element W = toE(w); A.SubmatrixAssignment(1, 1, 0, 1, W); wr(); sa.v(1, 0) = w(0, 0); sa.v(1, 1) = w(0, 1); break; }
    case 21: { if (a == b) break; if (sb.f.count("f")) { B.CopyFieldsTo(A); for (auto &q : sb.f) sa.f[q.first] = q.second; } break; }
    }
}
const char *opname[] = {"assign", "copyto", "copy_construct", "write", "write_partial", "scale", "axpy", "gemm", "transpose", "zeros", "scaled_identity", "identity", "reshape", "get_reshape", "attach", "modify_attached", "detach", "delete_assign", "compound_add", "arithmetic", "submatrix", "copy_attached"};
void history(int cfg, int k1, int depth, bool full = false)
{
    Pool p; init(p, cfg); check(p, "init");
    static const int second[] = {0, 4, 6, 8, 15};
    for (int d = 0; d < depth; d++)
    {
        int k = d == 0 ? k1 : second[sym_choice(sym_fmt("op%d", d).c_str(), 5)];
        if (full && d > 0) k = sym_choice(sym_fmt("opf%d", d).c_str(), NOPS);
        bool un = k == 3 || k == 4 || k == 5 || (k >= 8 && k <= 12) || k == 15 || k == 16 || k == 20;
        int a = sym_choice(sym_fmt("a%d", d).c_str(), M), b = un ? a : sym_choice(sym_fmt("b%d", d).c_str(), d == 0 || full ? M : 2);
        op(p, k, a, b); check(p, opname[k]);
    }
}
// decompositions kept with an element always belong to its present data: after any operation a solve with the element is a solve with its data
void cached(int cfg, int k, bool lu)
{
    static const double num[] = {3, 1, 1, 5, 4, -1, -1, 2, 7, 2, 2, 6};
    Pool p; for (int i = 0; i < M; i++) { p.e[i] = Element(2, 2); Mx v(2, 2); for (int t = 0; t < 4; t++) v.a[t] = num[4 * i + t]; if (lu) v = newm(p, 2, 2); p.s[i].v = v; fill(p.e[i], v); }
    for (int i = 0; i < M; i++)
    {
        if (lu) { sym_assume_ne(p.s[i].v(0, 0), 0); sym_assume_ne(p.s[i].v(0, 0) * p.s[i].v(1, 1) - p.s[i].v(0, 1) * p.s[i].v(1, 0), 0); p.e[i].LUdecom(); }
        else { p.e[i].LUdecom(); p.e[i].CholDecom(); p.e[i].HHRDecom(); p.e[i].QRDecom(); p.e[i].EigenDecomSym(); p.e[i].SVDDecom(); p.e[i].SchurForm(); }
    }
    if (cfg == 1) { p.e[1] = p.e[0]; p.s[1] = p.s[0]; }
    int a = sym_choice("a", M), b = sym_choice("b", M); op(p, k, a, b); check(p, opname[k]);
    for (int i = 0; i < M; i++) if (p.s[i].alloc)
    {
        Element F(p.s[i].r, p.s[i].c); fill(F, p.s[i].v); bool sq = p.s[i].r == 2;
        auto cmp = [&](const char *nm, std::function<void()> dec) { if (!p.e[i].FieldsExist(nm)) return; sym_true(sq, "%s:shape_%s", opname[k], nm); if (!sq) return; dec(); eqEE(p.e[i].Field(nm), F.Field(nm), sym_fmt("%s:%s", opname[k], nm).c_str()); };
        cmp("_LU", [&] { F.LUdecom(); }); cmp("_L", [&] { F.CholDecom(); }); cmp("_HHR", [&] { F.HHRDecom(); }); cmp("_Q", [&] { F.QRDecom(); }); cmp("_R", [&] { F.QRDecom(); }); cmp("_EigVal", [&] { F.EigenDecomSym(); }); cmp("_S", [&] { F.SVDDecom(); }); cmp("_SchurForm", [&] { F.SchurForm(); });
    }
}
// ---- products of elements
struct PS { std::vector<std::pair<int, int>> sh; std::vector<Mx> v; std::vector<std::map<std::string, Mx>> f; std::map<std::string, Mx> F; bool alloc = true; };
struct PPool { std::vector<Element> e; std::vector<PS> s; int fresh = 0; };
Element mkP(int kind)
{
    if (kind == 0) { Element A(2, 1), B(1, 2); return Element(2, &A, 2, &B, 1); }
    if (kind == 1) { Element A(1, 2), B(2, 1); int pw[] = {0, 2, 3}; Element t[] = {A, B}; return Element(2, t, pw); }
    Element A(2, 1), B(1, 2); return Element(2, &A, 1, &B, 2);
}
std::vector<std::pair<int, int>> shp(int kind) { if (kind == 0) return {{2, 1}, {2, 1}, {1, 2}}; if (kind == 1) return {{1, 2}, {1, 2}, {2, 1}}; return {{2, 1}, {1, 2}, {1, 2}}; }
Mx newp(PPool &p, int r, int c) { return Mx::sym(sym_fmt("v%d_", p.fresh++).c_str(), r, c); }
void pcheck(const PPool &p, const char *l)
{
    for (size_t i = 0; i < p.e.size(); i++)
    {
        const Element &e = p.e[i]; const PS &s = p.s[i]; int n = s.sh.size(), o = 0; sym_true(e.Getnumofelements() == n, "%s:components", l); if (!s.alloc) { sym_true(e.ObtainReadData() == nullptr, "%s:empty", l); continue; }
        if (e.Getnumofelements() != n) continue;
        const realdp *q = e.ObtainReadData(); sym_true(q != nullptr, "%s:allocated", l); if (!q) continue;
        for (int j = 0; j < n; j++)
        {
            Element &c = e.GetElement(j); sym_true(c.Getrow() == s.sh[j].first && c.Getcol() == s.sh[j].second, "%s:component_shape", l); sym_true(c.ObtainReadData() == q + o, "%s:component_memory", l);
            if (c.ObtainReadData() == q + o) for (size_t t = 0; t < s.v[j].a.size(); t++) sym_eq(q[o + t], s.v[j].a[t], "%s:component_value", l);
            sym_true(c.FieldsExist("f") == (s.f[j].count("f") > 0), "%s:component_attached", l); if (c.FieldsExist("f") && s.f[j].count("f")) eqE(c.Field("f"), s.f[j].at("f"), sym_fmt("%s:component_attached_value", l).c_str());
            o += s.v[j].a.size();
        }
        sym_true(e.FieldsExist("F") == (s.F.count("F") > 0), "%s:attached", l); if (e.FieldsExist("F") && s.F.count("F")) eqE(e.Field("F"), s.F.at("F"), sym_fmt("%s:attached_value", l).c_str());
    }
}
void pwrite(PPool &p, int a) { PS &s = p.s[a]; realdp *q = p.e[a].ObtainWriteEntireData(); int o = 0; for (size_t j = 0; j < s.sh.size(); j++) { s.v[j] = newp(p, s.sh[j].first, s.sh[j].second); for (double x : s.v[j].a) q[o++] = x; s.f[j].clear(); } s.F.clear(); s.alloc = true; }
void pinit(PPool &p, int cfg)
{
    int kind[3] = {0, 0, 0}; if (cfg == 3) kind[1] = 1; if (cfg == 4) kind[1] = 2;
    for (int i = 0; i < M; i++) { p.e.push_back(mkP(kind[i])); PS s; s.sh = shp(kind[i]); s.v.resize(3); s.f.resize(3); p.s.push_back(s); pwrite(p, i); }
    if (cfg == 1) { p.e[1] = p.e[0]; p.s[1] = p.s[0]; }
    if (cfg == 2) { Mx w = newp(p, 2, 1); p.e[0].GetElement(1).AddToFields("f", toE(w)); p.s[0].f[1]["f"] = w; Mx w2 = newp(p, 2, 1); p.e[1].GetElement(2).AddToFields("f", toE(w2)); p.s[1].f[2]["f"] = w2; Mx w3 = newp(p, 1, 1); p.e[1].AddToFields("F", toE(w3)); p.s[1].F["F"] = w3; }
    if (cfg == 5) { p.e[2] = mkP(0); p.e[2] = Element(); p.e[2] = mkP(1); p.s[2].sh = shp(1); p.s[2].alloc = false; for (int j = 0; j < 3; j++) p.s[2].v[j] = Mx(p.s[2].sh[j].first, p.s[2].sh[j].second); }
}
enum { NPOPS = 14 };
const char *popname[] = {"assign", "copyto", "copy_construct", "write", "write_partial", "scale", "axpy", "zeros", "component_write", "component_assign", "component_attach", "attach", "arithmetic", "delete_assign"};
void pop(PPool &p, int k, int a, int b)
{
    Element &A = p.e[a], &B = p.e[b]; PS &sa = p.s[a]; PS sb = p.s[b]; auto clr = [&](PS &s) { s.F.clear(); for (auto &m : s.f) m.clear(); };
    bool ok = sa.alloc && sb.alloc;
    switch (k)
    {
    case 0: A = B; sa = sb; break;
    case 1: B.CopyTo(A); sa = sb; break;
    case 2: { if (!sb.alloc) break; Element T(B); T.ScalarTimesThis(2.); A = T; sa = sb; clr(sa); for (auto &m : sa.v) m = 2. * m; break; }
    case 3: pwrite(p, a); break;
    case 4: { if (!sa.alloc) break; realdp *q = A.ObtainWritePartialData(); double z = sym_real(sym_fmt("z%d", p.fresh++).c_str()); q[2] = z; sa.v[1].a[0] = z; clr(sa); break; }
    case 5: { if (!sa.alloc) break; A.ScalarTimesThis(3.); clr(sa); for (auto &m : sa.v) m = 3. * m; break; }
    case 6: { if (!ok) break; A.AlphaXaddThis(2., B); clr(sa); for (size_t j = 0; j < 3; j++) { Mx t = sb.v[j]; for (size_t i = 0; i < 2; i++) t.a[i] = sa.v[j].a[i] + 2. * sb.v[j].a[i]; sa.v[j].a = t.a; } break; }
    case 7: { A.SetToZeros(); clr(sa); sa.alloc = true; for (auto &m : sa.v) for (double &d : m.a) d = 0; break; }
    case 8: { if (!sa.alloc) break; A.CopyOnWrite(); Mx w = newp(p, sa.sh[1].first, sa.sh[1].second); fill(A.GetElement(1), w); sa.v[1] = w; sa.f[1].clear(); break; }
    case 9: { A.NewMemoryOnWrite(); clr(sa); sa.alloc = true; for (int j = 0; j < 3; j++) { Mx w = newp(p, sa.sh[j].first, sa.sh[j].second); Element W = toE(w); if (j == 1) { Mx g = newp(p, 1, 1); W.AddToFields("f", toE(g)); sa.f[1]["f"] = g; } A.GetElement(j) = W; sa.v[j] = w; } break; }
    case 10: { Mx g = newp(p, 2, 1); A.GetElement(2).AddToFields("f", toE(g)); sa.f[2]["f"] = g; break; }
    case 11: { Mx g = newp(p, 2, 1); A.AddToFields("F", toE(g)); sa.F["F"] = g; break; }
    case 12: { if (!ok) break; PS t = sb; A = B - 2. * A; clr(t); for (size_t j = 0; j < 3; j++) for (size_t i = 0; i < 2; i++) t.v[j].a[i] = sb.v[j].a[i] - 2. * sa.v[j].a[i]; sa = t; break; }
    case 13: { if (a == b) break; A.Delete(); A = B; sa = sb; break; }
    }
}
void phistory(int cfg, int k1, int depth, bool full = false)
{
    PPool p; pinit(p, cfg); pcheck(p, "init");
    static const int second[] = {0, 4, 8, 11};
    for (int d = 0; d < depth; d++)
    {
        int k = d == 0 ? k1 : second[sym_choice(sym_fmt("op%d", d).c_str(), 4)];
        if (full && d > 0) k = sym_choice(sym_fmt("opf%d", d).c_str(), NPOPS);
        bool un = !(k <= 2 || k == 6 || k >= 12);
        int a = sym_choice(sym_fmt("a%d", d).c_str(), M), b = un ? a : sym_choice(sym_fmt("b%d", d).c_str(), d == 0 || full ? M : 2);
        pop(p, k, a, b); pcheck(p, popname[k]);
    }
}
struct Init
{
    Init()
    {
        for (int k = 0; k < NOPS; k++)
        {
            sym_register_case(sym_fmt("own2_%s", opname[k]), [k]() { history(sym_choice("cfg", 9), k, 2); }, 0);
            sym_register_case(sym_fmt("own2f_%s", opname[k]), [k]() { history(sym_choice("cfg", 9), k, 2, true); }, 1);
            sym_register_case(sym_fmt("own3_%s", opname[k]), [k]() { history(sym_choice("cfg", 9), k, 3); }, 1);
            for (int lu = 0; lu < 2; lu++) sym_register_case(sym_fmt("cach%d_%s", lu, opname[k]), [k, lu]() { sym_div0_assume(true); cached(sym_choice("cfg", 2), k, lu); }, 0);
        }
        for (int k = 0; k < NPOPS; k++)
        {
            sym_register_case(sym_fmt("pown2_%s", popname[k]), [k]() { phistory(sym_choice("cfg", 6), k, 2); }, 0);
            sym_register_case(sym_fmt("pown2f_%s", popname[k]), [k]() { phistory(sym_choice("cfg", 6), k, 2, true); }, 1);
            sym_register_case(sym_fmt("pown3_%s", popname[k]), [k]() { phistory(sym_choice("cfg", 6), k, 3); }, 1);
        }
    }
} inite; }
