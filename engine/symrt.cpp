// Symbolic runtime: term DAG over the reals, polynomial normal form in a tower of radicals, SMT queries (z3 API,
// cvc5 as second back end), path exploration by re-execution of decision prefixes in forked children.
#include "sym.h"
#include <gmpxx.h>
#include <z3++.h>
#include <unordered_map>
#include <map>
#include <fnmatch.h>
#include <set>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <deque>
#include <chrono>
#include <random>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>

typedef uint32_t T;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------------------------------------ configuration
static double g_query_timeout = 6.0;      // seconds per solver query
static unsigned g_rlimit = 12000000;      // z3 resource limit per query
static size_t g_polylimit = 4000;         // terms of a normal form
static double g_path_timeout = 60;
static bool g_use_cvc5 = true;
static int g_verbose = 0;

// ------------------------------------------------------------------------------------------------ terms
enum Op : uint8_t { CONST, VAR, ADD, MUL, DIV, SQRT, EXP, LOG, SIN, COS, ATAN, ACOS, ASIN, POW, UF };
struct Node { Op op; T a, b; uint32_t aux; };
static std::vector<Node> N;
static std::vector<mpq_class> CV;                       // constants, index aux
struct VarInfo { std::string name; bool nonneg, pos; bool haslo, hashi; double lo, hi; bool inf; };
static std::vector<VarInfo> V;                          // index aux
struct Key { uint8_t op; T a, b; bool operator==(const Key &o) const { return op == o.op && a == o.a && b == o.b; } };
struct KeyH { size_t operator()(const Key &k) const { uint64_t h = k.op; h = h * 1000003u ^ k.a; h = h * 0x9E3779B97F4A7C15ull ^ k.b; return h ^ (h >> 29); } };
static std::unordered_map<Key, T, KeyH> HC;
static std::map<mpq_class, T> HConst;
static std::unordered_map<std::string, uint32_t> UFN; static std::vector<std::string> UFNames;

struct PathAbort { int kind; std::string why; };        // kind: 0 stop ok, 1 assumed away, 2 unsupported/limit
static const uint64_t TAG = 0x7FF9ull << 48, TAGU = 0x7FFAull << 48;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool issym(double d) { return (bits(d) >> 48) == 0x7FF9; }
static inline bool isuninit(double d) { return (bits(d) >> 48) == 0x7FFA; }
static inline bool isplain(double d) { uint64_t t = bits(d) >> 48; return t != 0x7FF9 && t != 0x7FFA; }

static T mkconst(const mpq_class &q)
{
    auto it = HConst.find(q); if (it != HConst.end()) return it->second;
    if (mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2) > 20000) throw PathAbort{2, "constant too large"};
    CV.push_back(q); N.push_back({CONST, 0, 0, (uint32_t)CV.size() - 1}); T id = N.size() - 1; HConst[q] = id; return id;
}
static T mk(Op op, T a, T b, uint32_t aux = 0)
{
    Key k{(uint8_t)(op + 16 * (op == UF ? aux : 0)), a, b};
    auto it = HC.find(k); if (it != HC.end()) return it->second;
    if (N.size() > 3000000) throw PathAbort{2, "term DAG too large"};
    N.push_back({op, a, b, aux}); T id = N.size() - 1; HC[k] = id; return id;
}
static inline bool isc(T t) { return N[t].op == CONST; }
static inline const mpq_class &cv(T t) { return CV[N[t].aux]; }
static T T0, T1, TM1;
static T tmul(T a, T b);
static T tadd(T a, T b)
{
    if (isc(a) && isc(b)) return mkconst(cv(a) + cv(b));
    if (a == T0) return b; if (b == T0) return a;
    if (a > b) std::swap(a, b);
    // x + (-1)*x
    auto negof = [&](T x, T y) { const Node &n = N[y]; return n.op == MUL && ((n.a == TM1 && n.b == x) || (n.b == TM1 && n.a == x)); };
    if (negof(a, b) || negof(b, a)) return T0;
    return mk(ADD, a, b);
}
static T tmul(T a, T b)
{
    if (isc(a) && isc(b)) return mkconst(cv(a) * cv(b));
    if (a == T0 || b == T0) return T0;
    if (a == T1) return b; if (b == T1) return a;
    if (isc(b)) std::swap(a, b);
    if (isc(a) && N[b].op == MUL && isc(N[b].a)) return tmul(mkconst(cv(a) * cv(N[b].a)), N[b].b);
    if (!isc(a) && a > b) std::swap(a, b);
    return mk(MUL, a, b);
}
static T tneg(T a) { return tmul(TM1, a); }
static T tsub(T a, T b) { if (a == b) return T0; return tadd(a, tneg(b)); }
static T tdivraw(T a, T b)
{
    if (isc(b)) return tmul(mkconst(1 / cv(b)), a);
    if (a == T0) return T0; if (a == b) return T1;
    return mk(DIV, a, b);
}
static void initterms() { if (!N.empty()) return; T0 = mkconst(0); T1 = mkconst(1); TM1 = mkconst(-1); }
static T fromd(double d);
static double tod(T t)
{
    if (isc(t)) { const mpq_class &q = cv(t); double d = q.get_d(); if (std::isfinite(d) && mpq_class(d) == q) return d; }
    return dbl(TAG | t);
}
static T newvar(const VarInfo &vi) { V.push_back(vi); N.push_back({VAR, 0, 0, (uint32_t)V.size() - 1}); return N.size() - 1; }
static int g_uninit = 0;
static T fromd(double d)
{
    if (issym(d)) return (T)(bits(d) & 0xFFFFFFFFu);
    if (isuninit(d)) { VarInfo vi{"uninit!" + std::to_string(g_uninit++), false, false, false, false, 0, 0, false}; return newvar(vi); }
    return mkconst(mpq_class(d));
}

// ------------------------------------------------------------------------------------------------ polynomials
static const int NV = 96;
struct Mono { uint8_t e[NV]; bool operator==(const Mono &o) const { return !memcmp(e, o.e, NV); } };
struct MonoH { size_t operator()(const Mono &m) const { uint64_t h = 1469598103934665603ull; const uint64_t *p = (const uint64_t *)m.e; for (int i = 0; i < NV / 8; i++) { h ^= p[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31; } return h; } };
struct MonoGt { bool operator()(const Mono &a, const Mono &b) const { for (int i = NV - 1; i >= 0; i--) if (a.e[i] != b.e[i]) return a.e[i] > b.e[i]; return false; } };
struct NFOverflow {};
struct Poly { std::vector<std::pair<Mono, mpq_class>> t; bool zero() const { return t.empty(); } };   // sorted MonoGt
typedef std::unordered_map<Mono, mpq_class, MonoH> PMap;
static Mono mono1() { Mono m; memset(m.e, 0, NV); return m; }
static Poly pconst(const mpq_class &c) { Poly p; if (c != 0) p.t.push_back({mono1(), c}); return p; }
struct NVar { int kind; T term; Poly P; bool nonneg, pos; int partner; };   // kind 0 input, 1 sqrt (v^2=P), 2 sin (v^2=1-partner^2), 3 opaque
static std::vector<NVar> NVs;
static std::unordered_map<T, int> termvar;      // DAG node -> nf variable (inputs, opaque)
static bool hasReducible = false;
static Poly fromMap(PMap &m)
{
    Poly p; p.t.reserve(m.size());
    for (auto &kv : m) if (kv.second != 0) p.t.push_back({kv.first, kv.second});
    std::sort(p.t.begin(), p.t.end(), [](const std::pair<Mono, mpq_class> &a, const std::pair<Mono, mpq_class> &b) { return MonoGt()(a.first, b.first); });
    return p;
}
static Poly padd(const Poly &a, const Poly &b, int sgn = 1)
{
    Poly r; r.t.reserve(a.t.size() + b.t.size()); size_t i = 0, j = 0; MonoGt gt;
    while (i < a.t.size() || j < b.t.size())
    {
        if (j == b.t.size() || (i < a.t.size() && gt(a.t[i].first, b.t[j].first))) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || gt(b.t[j].first, a.t[i].first)) { r.t.push_back(b.t[j]); if (sgn < 0) r.t.back().second = -r.t.back().second; j++; }
        else { mpq_class c; if (sgn > 0) c = a.t[i].second + b.t[j].second; else c = a.t[i].second - b.t[j].second; if (c != 0) r.t.push_back({a.t[i].first, c}); i++; j++; }
    }
    if (r.t.size() > g_polylimit) throw NFOverflow();
    return r;
}
static Poly pscale(const Poly &a, const mpq_class &c) { if (c == 0) return Poly(); Poly r = a; for (auto &x : r.t) x.second *= c; return r; }
static Poly pvar(int v) { Poly p; Mono m = mono1(); m.e[v] = 1; p.t.push_back({m, mpq_class(1)}); return p; }
static Poly pmul(const Poly &a, const Poly &b);
static uint64_t g_work = 0, g_worklimit = 400000000ull;
static Poly preduce(Poly p)
{
    if (!hasReducible) return p;
    for (int guard = 0; guard < 1000; guard++)
    {
        int v = -1;
        for (int i = (int)NVs.size() - 1; i >= 0 && v < 0; i--)
            if (NVs[i].kind == 1 || NVs[i].kind == 2) for (auto &x : p.t) if (x.first.e[i] >= 2) { v = i; break; }
        if (v < 0) return p;
        // group by power of v
        std::map<int, Poly> g;
        for (auto &x : p.t) { Mono m = x.first; int k = m.e[v] / 2; m.e[v] &= 1; g[k].t.push_back({m, x.second}); }
        Poly R; 
        for (auto &kv : g)
        {
            PMap mm; for (auto &x : kv.second.t) mm[x.first] += x.second;
            Poly q = fromMap(mm);
            for (int k = 0; k < kv.first; k++) q = pmul(q, NVs[v].P);
            R = padd(R, q);
        }
        p = R;
    }
    throw NFOverflow();
}
static Poly pmulraw(const Poly &a, const Poly &b)
{
    if (a.zero() || b.zero()) return Poly();
    const Poly *x = &a, *y = &b; if (x->t.size() > y->t.size()) std::swap(x, y);
    if (x->t.size() * y->t.size() > 20000000ull) throw NFOverflow();
    g_work += x->t.size() * y->t.size() * 4; if (g_work > g_worklimit) throw NFOverflow();
    if (x->t.size() == 1)
    {
        Poly r = *y; for (auto &z : r.t) { for (int i = 0; i < NV; i++) { int s = z.first.e[i] + x->t[0].first.e[i]; if (s > 250) throw NFOverflow(); z.first.e[i] = s; } z.second *= x->t[0].second; }
        return r;
    }
    PMap m; m.reserve(y->t.size() * 2);
    mpq_class tmp;
    for (auto &u : x->t) for (auto &w : y->t)
    {
        Mono q; for (int i = 0; i < NV; i++) q.e[i] = u.first.e[i] + w.first.e[i];
        tmp = u.second * w.second;
        mpq_class &c = m[q]; c += tmp;
        if (m.size() > 8 * g_polylimit) throw NFOverflow();
    }
    for (auto &kv : m) for (int i = 0; i < NV; i++) if (kv.first.e[i] > 120) throw NFOverflow();
    Poly r = fromMap(m); 
    return r;
}
static Poly pmul(const Poly &a, const Poly &b)
{
    Poly r = preduce(pmulraw(a, b));
    if (r.t.size() > g_polylimit) throw NFOverflow();
    return r;
}
static bool pdivides(const Mono &a, const Mono &b) { for (int i = 0; i < NV; i++) if (a.e[i] > b.e[i]) return false; return true; }
// exact division in the polynomial ring (no relations); true on success
static bool pdivexact(const Poly &a, const Poly &d, Poly &q)
{
    if (d.zero()) return false;
    q = Poly(); if (a.zero()) return true;
    if (d.t.size() > 1)
    {   // cheap degree filter
        int da[NV], dd[NV]; memset(da, 0, sizeof da); memset(dd, 0, sizeof dd);
        for (auto &x : a.t) for (int i = 0; i < NV; i++) da[i] = std::max(da[i], (int)x.first.e[i]);
        for (auto &x : d.t) for (int i = 0; i < NV; i++) dd[i] = std::max(dd[i], (int)x.first.e[i]);
        for (int i = 0; i < NV; i++) if (dd[i] > da[i]) return false;
        if (!pdivides(d.t.back().first, a.t.back().first)) return false;
    }
    std::map<Mono, mpq_class, MonoGt> r(a.t.begin(), a.t.end());
    const auto &ld = d.t[0]; size_t steps = 0; size_t maxsteps = 4 * a.t.size() + 64;
    while (!r.empty())
    {
        auto it = r.begin(); if (!pdivides(ld.first, it->first)) return false;
        if (++steps > maxsteps) return false;
        Mono m; for (int i = 0; i < NV; i++) m.e[i] = it->first.e[i] - ld.first.e[i];
        mpq_class c = it->second / ld.second; q.t.push_back({m, c});
        for (auto &x : d.t)
        {
            Mono z; for (int i = 0; i < NV; i++) z.e[i] = x.first.e[i] + m.e[i];
            auto f = r.find(z); mpq_class p = c * x.second;
            if (f == r.end()) r[z] = -p; else { f->second -= p; if (f->second == 0) r.erase(f); }
        }
        g_work += d.t.size(); if (g_work > g_worklimit) throw NFOverflow();
        if (r.size() > 4 * g_polylimit) return false;
    }
    return true;
}
static mpq_class pcontent(const Poly &p)   // positive rational c with p/c primitive integer; sign of leading coeff kept positive in c? (c>0)
{
    mpz_class g = 0, l = 1;
    for (auto &x : p.t) { mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.second.get_num_mpz_t()); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), x.second.get_den_mpz_t()); }
    mpq_class c(g, l); c.canonicalize(); return c;
}
static std::string pkey(const Poly &p)
{
    std::string s; s.reserve(p.t.size() * 24);
    for (auto &x : p.t) { for (int i = 0; i < NV; i++) if (x.first.e[i]) { s += (char)(i + 1); s += (char)x.first.e[i]; } s += '\0'; s += x.second.get_str(62); s += ';'; }
    return s;
}
static std::string pstr(const Poly &p, size_t maxt = 12)
{
    std::string s; size_t k = 0;
    for (auto &x : p.t) { if (k++ >= maxt) { s += " + ..."; break; } if (!s.empty()) s += " + "; s += x.second.get_str(); for (int i = 0; i < NV; i++) if (x.first.e[i]) { s += "*"; s += (NVs[i].kind == 0 ? V[N[NVs[i].term].aux].name : "r" + std::to_string(i)); if (x.first.e[i] > 1) s += "^" + std::to_string(x.first.e[i]); } }
    return s.empty() ? "0" : s;
}

// ------------------------------------------------------------------------------------------------ rational functions
static std::vector<Poly> atoms; static std::unordered_map<std::string, int> atomid;
struct RF { Poly num; std::map<int, int> den; };
static int mkatom(Poly p, mpq_class &scale)      // p = scale * atom
{
    mpq_class c = pcontent(p); if (p.t[0].second < 0) c = -c;
    scale = c; p = pscale(p, 1 / c);
    std::string k = pkey(p); auto it = atomid.find(k); if (it != atomid.end()) return it->second;
    atoms.push_back(p); atomid[k] = atoms.size() - 1; return atoms.size() - 1;
}
static int newnv(int kind, T term, bool nonneg, bool pos) { if ((int)NVs.size() >= NV) throw NFOverflow(); NVs.push_back({kind, term, Poly(), nonneg, pos, -1}); if (kind == 1 || kind == 2) hasReducible = true; return NVs.size() - 1; }
static void rfcancel(RF &r)
{
    if (r.num.zero()) { r.den.clear(); return; }
    for (auto it = r.den.begin(); it != r.den.end();)
    {
        Poly q; bool any = true;
        while (it->second > 0 && any) { any = pdivexact(r.num, atoms[it->first], q); if (any) { r.num = q; it->second--; } }
        if (it->second == 0) it = r.den.erase(it); else ++it;
    }
}
static Poly ppow(const Poly &p, int k) { Poly r = pconst(1); for (int i = 0; i < k; i++) r = pmul(r, p); return r; }
static RF rfadd(const RF &a, const RF &b)
{
    if (a.num.zero()) return b; if (b.num.zero()) return a;
    RF r; r.den = a.den; for (auto &kv : b.den) { int &e = r.den[kv.first]; e = std::max(e, kv.second); }
    Poly x = a.num, y = b.num;
    for (auto &kv : r.den)
    {
        auto ia = a.den.find(kv.first), ib = b.den.find(kv.first);
        int ea = kv.second - (ia == a.den.end() ? 0 : ia->second), eb = kv.second - (ib == b.den.end() ? 0 : ib->second);
        if (ea) x = pmul(x, ppow(atoms[kv.first], ea)); if (eb) y = pmul(y, ppow(atoms[kv.first], eb));
    }
    r.num = padd(x, y);
    rfcancel(r); return r;
}
static RF rfmul(const RF &a, const RF &b)
{
    RF r; if (a.num.zero() || b.num.zero()) return r;
    RF x = a, y = b;
    // cross cancel first
    std::map<int, int> da = a.den, db = b.den; RF t1, t2; t1.num = a.num; t1.den = db; rfcancel(t1); t2.num = b.num; t2.den = da; rfcancel(t2);
    r.num = pmul(t1.num, t2.num); r.den = t1.den; for (auto &kv : t2.den) r.den[kv.first] += kv.second;
    if (hasReducible) rfcancel(r);
    return r;
}
static int psign_syntactic(const Poly &p);
static RF rfinv(const RF &a)
{   // 1/(num/den)
    RF r; r.num = pconst(1); for (auto &kv : a.den) r.num = pmul(r.num, ppow(atoms[kv.first], kv.second));
    Poly n = a.num;
    // rationalise radicals: repeatedly multiply by the conjugate with respect to the highest radical variable
    for (int guard = 0; guard < 6 && hasReducible; guard++)
    {
        int v = -1; for (int i = (int)NVs.size() - 1; i >= 0 && v < 0; i--) if (NVs[i].kind == 1) for (auto &x : n.t) if (x.first.e[i]) { v = i; break; }
        if (v < 0) break;
        Poly c; for (auto &x : n.t) { c.t.push_back(x); if (x.first.e[v]) c.t.back().second = -c.t.back().second; }
        bool allv = true; for (auto &x : n.t) if (!x.first.e[v]) allv = false;
        Poly m = allv ? pvar(v) : c;
        try { Poly nn = pmul(n, m); if (nn.zero() || nn.t.size() > 4 * (n.t.size() + 20)) break; Poly rn = pmul(r.num, m); n = nn; r.num = rn; } catch (NFOverflow &) { break; }
    }
    // split monomial factor into variable atoms
    Mono g = n.t[0].first; for (auto &x : n.t) for (int i = 0; i < NV; i++) g.e[i] = std::min(g.e[i], x.first.e[i]);
    for (auto &x : n.t) for (int i = 0; i < NV; i++) x.first.e[i] -= g.e[i];
    mpq_class s;
    for (int i = 0; i < NV; i++) if (g.e[i]) { int id = mkatom(pvar(i), s); r.den[id] += g.e[i]; }
    // split known atoms
    if (n.t.size() > 1)
    {
        for (int k = 0; k < (int)atoms.size() && k < 60 && n.t.size() > 1; k++)
        { if (atoms[k].t.size() < 2) continue; Poly q; while (n.t.size() > 1 && pdivexact(n, atoms[k], q)) { n = q; r.den[k]++; } }
    }
    if (n.t.size() == 1 && n.t[0].first == mono1()) { r.num = pscale(r.num, 1 / n.t[0].second); }
    else { int id = mkatom(n, s); r.den[id]++; r.num = pscale(r.num, 1 / s); }
    rfcancel(r); return r;
}

static bool sosterm(const Mono &m) { for (int i = 0; i < (int)NVs.size(); i++) if ((m.e[i] & 1) && !NVs[i].nonneg) return false; return true; }
// +2: >0, +1: >=0, -1,-2 likewise, 0 unknown
static int psign_syntactic(const Poly &p)
{
    if (p.zero()) return 0;
    bool allp = true, alln = true, strict = false;
    for (auto &x : p.t)
    {
        if (!sosterm(x.first)) return 0;
        if (x.second < 0) allp = false; else alln = false;
        bool st = true; for (int i = 0; i < (int)NVs.size(); i++) if (x.first.e[i] && !NVs[i].pos) st = false;
        if (st) strict = true;
    }
    if (allp) return strict ? 2 : 1;
    if (alln) return strict ? -2 : -1;
    return 0;
}
// ------------------------------------------------------------------------------------------------ path state
struct Constraint { int mask; bool haspoly; Poly p; T term; };   // sign(p or term) in mask; mask bits 1:neg 2:zero 4:pos
static std::vector<Constraint> PC;
static std::unordered_map<std::string, int> polymask; static std::unordered_map<T, int> termmask;
static int decideMask(T d, int askmask);     // returns bool: sign(d) in askmask
static int atomSign(int id);                 // fork if needed: -1/+1

static std::unordered_map<T, std::shared_ptr<RF>> nfmemo; static std::set<T> nffail;
static const RF &nf(T t);
static bool psqrt_perfect(const Poly &p, Poly &r)
{   // p = r^2 ?
    if (p.zero()) { r = Poly(); return true; }
    for (int i = 0; i < NV; i++) if (p.t[0].first.e[i] & 1 || p.t.back().first.e[i] & 1) return false;
    mpq_class c = p.t[0].second; if (c < 0 || !mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false;
    mpq_class rc(sqrt(mpz_class(c.get_num())), sqrt(mpz_class(c.get_den())));
    Mono m; for (int i = 0; i < NV; i++) m.e[i] = p.t[0].first.e[i] / 2;
    r = Poly(); r.t.push_back({m, rc}); size_t guard = 0;
    Poly rem = padd(p, pmulraw(r, r), -1);
    while (!rem.zero())
    {
        if (++guard > p.t.size() + 8) return false;
        if (!pdivides(m, rem.t[0].first)) return false;
        Mono q; for (int i = 0; i < NV; i++) q.e[i] = rem.t[0].first.e[i] - m.e[i];
        mpq_class cc = rem.t[0].second / (2 * rc);
        if (!MonoGt()(r.t.back().first, q)) return false;
        Poly nt; nt.t.push_back({q, cc});
        Poly two = pscale(pmulraw(r, nt), 2);
        rem = padd(padd(rem, two, -1), pmulraw(nt, nt), -1);
        r.t.push_back({q, cc});
    }
    return true;
}
static std::unordered_map<std::string, int> sqrtvar;
static int sqrtAtom(const Poly &P)
{
    std::string k = pkey(P); auto it = sqrtvar.find(k); if (it != sqrtvar.end()) return it->second;
    int v = newnv(1, 0, true, psign_syntactic(P) == 2); NVs[v].P = P; sqrtvar[k] = v; return v;
}
static T polyTerm(const Poly &p);
static RF rfc(const mpq_class &c) { RF r; r.num = pconst(c); return r; }
static RF sqrtInt(mpz_class n)
{   // sqrt of positive integer: prime by prime
    RF r = rfc(1); mpz_class out = 1;
    for (unsigned long p = 2; p < 20000 && mpz_class(p) * p <= n; p++)
    {
        int e = 0; while (n % p == 0) { n /= p; e++; }
        for (int i = 0; i < e / 2; i++) out *= p;
        if (e & 1) { RF q; q.num = pvar(sqrtAtom(pconst(mpz_class(p)))); r = rfmul(r, q); }
    }
    if (n > 1) { if (mpz_perfect_square_p(n.get_mpz_t())) out *= sqrt(n); else { RF q; q.num = pvar(sqrtAtom(pconst(n))); r = rfmul(r, q); } }
    return rfmul(rfc(out), r);
}
static bool g_nf_fork = true;
static RF rfsqrt(const RF &a)
{
    if (a.num.zero()) return RF();
    RF out = rfc(1);
    // num * den^(odd)  / den^(ceil)
    Poly n = a.num;
    for (auto &kv : a.den)
    {
        int e = kv.second; int k = (e + 1) / 2;
        if (e & 1) n = pmul(n, atoms[kv.first]);
        RF d; d.num = pconst(1); d.den[kv.first] = k; 
        out = rfmul(out, d);
        if (k & 1) { int s = atomSign(kv.first); if (s < 0) out = rfmul(out, rfc(-1)); }
    }
    // pull out even powers of atoms and variables
    for (int k = 0; k < (int)atoms.size() && k < 60 && n.t.size() > 1; k++)
    {
        if (atoms[k].t.size() < 2) continue;
        Poly q, q2; while (n.t.size() > 1 && pdivexact(n, atoms[k], q) && pdivexact(q, atoms[k], q2))
        { n = q2; RF f; f.num = atoms[k]; out = rfmul(out, f); if (atomSign(k) < 0) out = rfmul(out, rfc(-1)); }
    }
    Mono g = n.t[0].first; for (auto &x : n.t) for (int i = 0; i < NV; i++) g.e[i] = std::min(g.e[i], x.first.e[i]);
    for (int i = 0; i < (int)NVs.size(); i++) if (g.e[i] >= 2)
    {
        int k = g.e[i] / 2; for (auto &x : n.t) x.first.e[i] -= 2 * k;
        RF f; f.num = ppow(pvar(i), k); out = rfmul(out, f);
        if ((k & 1) && !NVs[i].nonneg) { mpq_class s; int id = mkatom(pvar(i), s); if (atomSign(id) < 0) out = rfmul(out, rfc(-1)); }
    }
    mpq_class c = pcontent(n); n = pscale(n, 1 / c);
    Poly r;
    // sqrt(c) = sqrt(num*den)/den
    mpz_class nd = mpz_class(c.get_num()) * mpz_class(c.get_den());
    if (n.t.size() == 1 && n.t[0].first == mono1())
    {
        nd *= mpz_class(n.t[0].second.get_num()); if (nd < 0) throw NFOverflow();
        RF s = sqrtInt(nd); s = rfmul(s, rfc(mpq_class(1, mpz_class(c.get_den())))); return rfmul(out, s);
    }
    RF s = sqrtInt(nd); { mpq_class dd(1, 1); dd = mpq_class(mpz_class(1), mpz_class(c.get_den())); s = rfmul(s, rfc(dd)); } out = rfmul(out, s);
    if (psqrt_perfect(n, r))
    {
        int sg = psign_syntactic(r);
        if (sg == 0) { mpq_class sc; int id = mkatom(r, sc); int s2 = atomSign(id); if (sc < 0) s2 = -s2; sg = s2; }
        RF f; f.num = sg < 0 ? pscale(r, -1) : r; return rfmul(out, f);
    }
    RF f; f.num = pvar(sqrtAtom(n)); return rfmul(out, f);
}
static std::map<std::string, std::pair<int, int>> sincosvar; static std::map<std::string, int> opaquevar;
static std::string rfkey(const RF &r) { std::string s = pkey(r.num); for (auto &kv : r.den) s += "/" + std::to_string(kv.first) + "^" + std::to_string(kv.second); return s; }
static RF nfcompute(T t)
{
    Node n = N[t];
    switch (n.op)
    {
    case CONST: return rfc(cv(t));
    case VAR: { auto it = termvar.find(t); int v; if (it == termvar.end()) { v = newnv(0, t, V[n.aux].nonneg, V[n.aux].pos); termvar[t] = v; } else v = it->second; RF r; r.num = pvar(v); return r; }
    case ADD: return rfadd(nf(n.a), nf(n.b));
    case MUL: return rfmul(nf(n.a), nf(n.b));
    case DIV: { RF d = nf(n.b); if (d.num.zero()) throw NFOverflow(); return rfmul(nf(n.a), rfinv(d)); }
    case SQRT: return rfsqrt(nf(n.a));
    case SIN: case COS:
    {
        RF a = nf(n.a); bool negd = !a.num.zero() && a.num.t[0].second < 0; if (negd) a.num = pscale(a.num, -1);
        if (a.num.zero()) return rfc(n.op == COS ? 1 : 0);
        std::string k = rfkey(a); auto it = sincosvar.find(k);
        if (it == sincosvar.end()) { int c = newnv(3, t, false, false), s = newnv(2, t, false, false); NVs[s].partner = c; NVs[s].P = padd(pconst(1), pmulraw(pvar(c), pvar(c)), -1); it = sincosvar.insert({k, {s, c}}).first; }
        RF r; r.num = pvar(n.op == SIN ? it->second.first : it->second.second); if (negd && n.op == SIN) r.num = pscale(r.num, -1); return r;
    }
    default:
    {
        std::string k = std::to_string((int)n.op) + "," + std::to_string(n.aux) + ":" + rfkey(nf(n.a)) + (n.op == POW || n.op == UF ? "|" + rfkey(nf(n.b)) : "");
        auto it = opaquevar.find(k); int v;
        if (it == opaquevar.end()) { v = newnv(3, t, n.op == EXP || n.op == POW, n.op == EXP || n.op == POW); opaquevar[k] = v; } else v = it->second;
        RF r; r.num = pvar(v); return r;
    }
    }
}
static const RF &nf(T t0)
{
    auto it = nfmemo.find(t0); if (it != nfmemo.end()) return *it->second;
    if (nffail.count(t0)) throw NFOverflow();
    // iterative post-order to avoid deep recursion
    std::vector<T> st{t0};
    while (!st.empty())
    {
        T t = st.back(); if (nfmemo.count(t)) { st.pop_back(); continue; }
        if (nffail.count(t)) { for (T x : st) nffail.insert(x); throw NFOverflow(); }
        const Node &n = N[t]; bool ok = true;
        if (n.op != CONST && n.op != VAR)
        {
            if (!nfmemo.count(n.a)) { st.push_back(n.a); ok = false; }
            if (ok && (n.op == ADD || n.op == MUL || n.op == DIV || n.op == POW || n.op == UF) && !nfmemo.count(n.b)) { st.push_back(n.b); ok = false; }
        }
        if (!ok) continue;
        try { auto p = std::make_shared<RF>(nfcompute(t)); nfmemo[t] = p; }
        catch (NFOverflow &) { for (T x : st) nffail.insert(x); throw; }
        st.pop_back();
    }
    return *nfmemo[t0];
}
static bool trynf(T t, RF &r) { try { r = nf(t); return true; } catch (NFOverflow &) { return false; } }
static T polyTerm(const Poly &p)
{
    T s = T0;
    for (auto &x : p.t)
    {
        T m = mkconst(x.second);
        for (int i = 0; i < NV; i++) for (int k = 0; k < x.first.e[i]; k++)
        { T v; if (NVs[i].kind == 0) v = NVs[i].term; else throw PathAbort{2, "polyTerm on derived variable"}; m = tmul(m, v); }
        s = tadd(s, m);
    }
    return s;
}
// ------------------------------------------------------------------------------------------------ solver
struct Stats { long q_z3 = 0, q_cvc5 = 0, unsat = 0, sat = 0, unknown = 0, alg = 0, asserts = 0, syn = 0; double z3time = 0, cvctime = 0, algtime = 0; long decisions = 0; };
static Stats ST;
enum Res { UNSAT, SAT, UNKNOWN };
struct Model { std::map<T, double> v; bool valid = false; };
struct Enc
{
    z3::context &c; z3::expr_vector defs; std::map<int, z3::expr> nvx; std::unordered_map<T, z3::expr> tx; std::map<T, z3::expr> vx;
    Enc(z3::context &c) : c(c), defs(c) {}
    z3::expr q(const mpq_class &v) { return c.real_val(v.get_str().c_str()); }
    z3::expr var(T t)
    {
        auto it = vx.find(t); if (it != vx.end()) return it->second;
        VarInfo &vi = V[N[t].aux]; z3::expr e = c.real_const((vi.name + "_" + std::to_string(t)).c_str()); vx.insert({t, e});
        if (vi.pos) defs.push_back(e > 0); else if (vi.nonneg && !vi.haslo) defs.push_back(e >= 0);
        if (vi.haslo) defs.push_back(e >= q(mpq_class(vi.lo))); if (vi.hashi) defs.push_back(e <= q(mpq_class(vi.hi)));
        return e;
    }
    z3::expr nv(int i)
    {
        auto it = nvx.find(i); if (it != nvx.end()) return it->second;
        NVar n = NVs[i];
        if (n.kind == 0) { z3::expr e = var(n.term); nvx.insert({i, e}); return e; }
        z3::expr e = c.real_const(("r" + std::to_string(i)).c_str()); nvx.insert({i, e});
        if (n.kind == 1) { defs.push_back(e * e == poly(n.P)); defs.push_back(e >= 0); }
        else if (n.kind == 2) { z3::expr p = nv(n.partner); defs.push_back(e * e + p * p == 1); }
        else { if (n.pos) defs.push_back(e > 0); else { Op op = N[n.term].op; if (op == SIN || op == COS) { defs.push_back(e <= 1); defs.push_back(e >= -1); RF a; if (op == COS && trynf(N[n.term].a, a) && a.num.t.size() <= 3) defs.push_back(z3::implies(poly(a.num) == 0, e == 1)); } } }
        return e;
    }
    z3::expr poly(const Poly &p)
    {
        if (p.zero()) return c.real_val(0);
        z3::expr_vector s(c);
        for (auto &x : p.t)
        {
            z3::expr m = q(x.second); bool one = (x.second == 1); bool first = true;
            for (int i = 0; i < NV; i++) for (int k = 0; k < x.first.e[i]; k++) { z3::expr v = nv(i); if (first && one) m = v; else m = m * v; first = false; }
            s.push_back(m);
        }
        return s.size() == 1 ? s[0] : z3::sum(s);
    }
    z3::expr term(T t)
    {
        auto it = tx.find(t); if (it != tx.end()) return it->second;
        std::vector<T> st{t};
        while (!st.empty())
        {
            T u = st.back(); if (tx.count(u)) { st.pop_back(); continue; }
            Node n = N[u]; bool bin = (n.op == ADD || n.op == MUL || n.op == DIV || n.op == POW || n.op == UF);
            if (n.op != CONST && n.op != VAR) { if (!tx.count(n.a)) { st.push_back(n.a); continue; } if (bin && !tx.count(n.b)) { st.push_back(n.b); continue; } }
            z3::expr e = c.real_val(0);
            if (n.op == CONST) e = q(cv(u)); else if (n.op == VAR) e = var(u);
            else
            {
                z3::expr a = tx.at(n.a);
                switch (n.op)
                {
                case ADD: e = a + tx.at(n.b); break;
                case MUL: e = a * tx.at(n.b); break;
                case DIV: { z3::expr d = c.real_const(("d" + std::to_string(u)).c_str()); z3::expr b = tx.at(n.b); defs.push_back(d * b == a); defs.push_back(b != 0); e = d; break; }
                case SQRT: { z3::expr d = c.real_const(("s" + std::to_string(u)).c_str()); defs.push_back(d * d == a); defs.push_back(d >= 0); e = d; break; }
                default: { z3::expr d = c.real_const(("o" + std::to_string(u)).c_str()); if (n.op == EXP || n.op == POW) defs.push_back(d > 0); if (n.op == SIN || n.op == COS) { defs.push_back(d <= 1); defs.push_back(d >= -1); } if (n.op == COS) defs.push_back(z3::implies(a == 0, d == 1)); if (n.op == SIN) defs.push_back(z3::implies(a == 0, d == 0)); e = d; }
                }
            }
            tx.insert({u, e}); st.pop_back();
        }
        return tx.at(t);
    }
    z3::expr cons(const Constraint &k)
    {
        z3::expr e = k.haspoly ? poly(k.p) : term(k.term); z3::expr z = c.real_val(0);
        switch (k.mask) { case 1: return e < z; case 2: return e == z; case 4: return e > z; case 3: return e <= z; case 6: return e >= z; case 5: return e != z; case 7: return c.bool_val(true); default: return c.bool_val(false); }
    }
};
static void consvars(const Constraint &k, std::set<T> &out)
{
    std::set<int> seen; std::vector<int> st; std::set<T> tseen; std::vector<T> ts;
    if (k.haspoly) { for (auto &x : k.p.t) for (int i = 0; i < NV; i++) if (x.first.e[i] && seen.insert(i).second) st.push_back(i); }
    else ts.push_back(k.term);
    while (!st.empty() || !ts.empty())
    {
        if (!st.empty())
        {
            int i = st.back(); st.pop_back();
            if (NVs[i].kind == 0) out.insert(NVs[i].term);
            else if (NVs[i].kind == 1) { bool any = false; for (auto &x : NVs[i].P.t) for (int j = 0; j < NV; j++) if (x.first.e[j]) { any = true; if (seen.insert(j).second) st.push_back(j); } (void)any; }
            else { ts.push_back(NVs[i].term); if (NVs[i].kind == 2 && seen.insert(NVs[i].partner).second) st.push_back(NVs[i].partner); }
        }
        else
        {
            T t = ts.back(); ts.pop_back(); if (!tseen.insert(t).second) continue;
            const Node &n = N[t]; if (n.op == CONST) continue; if (n.op == VAR) { out.insert(t); continue; }
            ts.push_back(n.a); if (n.op == ADD || n.op == MUL || n.op == DIV || n.op == POW || n.op == UF) ts.push_back(n.b);
        }
    }
}
static std::vector<std::set<T>> PCvars;
static double qtoD(const z3::expr &e)
{
    if (e.is_numeral()) { std::string s = Z3_get_numeral_string(e.ctx(), e); mpq_class q(s); return q.get_d(); }
    if (e.is_algebraic()) { std::string s = Z3_get_numeral_decimal_string(e.ctx(), e, 20); if (!s.empty() && s.back() == '?') s.pop_back(); return atof(s.c_str()); }
    return 0;
}
static void readModel(Enc &en, z3::solver &s, Model *m)
{
    z3::model mo = s.get_model(); m->valid = true;
    for (auto &kv : en.vx) { try { m->v[kv.first] = qtoD(mo.eval(kv.second, true)); } catch (...) { m->v[kv.first] = 0; } }
}
static Res cvc5Query(const std::string &smt, double tmo)
{
    char fn[] = "/tmp/symqXXXXXX"; int fd = mkstemp(fn); if (fd < 0) return UNKNOWN;
    std::string body = "(set-logic QF_NRA)\n" + smt; if (write(fd, body.data(), body.size()) < 0) {} close(fd);
    char cmd[300]; snprintf(cmd, sizeof cmd, "timeout %d cvc5 --lang smt2 --tlimit=%d %s 2>/dev/null", (int)tmo + 2, (int)(tmo * 1000), fn);
    double t0 = now(); FILE *p = popen(cmd, "r"); Res r = UNKNOWN; char buf[256]; 
    if (p) { while (fgets(buf, sizeof buf, p)) { if (!strncmp(buf, "unsat", 5)) r = UNSAT; else if (!strncmp(buf, "sat", 3)) r = SAT; else if (!strncmp(buf, "(error", 6)) { r = UNKNOWN; break; } } pclose(p); }
    unlink(fn); ST.q_cvc5++; ST.cvctime += now() - t0; return r;
}
static bool g_decision_mode = false;
static std::unordered_map<T, int> dagsize;
static bool dagBig(T t)   // more than 60 distinct nodes
{
    auto it = dagsize.find(t); if (it != dagsize.end()) return it->second; std::set<T> seen; std::vector<T> st{t};
    while (!st.empty() && seen.size() <= 60) { T u = st.back(); st.pop_back(); if (!seen.insert(u).second) continue; const Node &n = N[u]; if (n.op == CONST || n.op == VAR) continue; st.push_back(n.a); if (n.op == ADD || n.op == MUL || n.op == DIV || n.op == POW || n.op == UF) st.push_back(n.b); }
    return dagsize[t] = seen.size() > 60;
}
static z3::context *gctx() { static z3::context *cx = nullptr; if (!cx) cx = new z3::context(); return cx; }
// loads z3 once before the path processes are forked
static void warmZ3()
{
    try
    {
        z3::context &c = *gctx(); z3::expr x = c.real_const("wx"), y = c.real_const("wy");
        { z3::solver s(c, "QF_LRA"); s.add(x > y); s.add(x + y < 3); s.check(); }
        { z3::solver s = z3::tactic(c, "qfnra-nlsat").mk_solver(); s.add(x * x * y > y); s.add(x * y * y + x * x < 3); s.add(x < y); s.check(); }
    }
    catch (z3::exception &) {}
}
// linear relaxation, every monomial an unknown of its own: UNSAT is sound, SAT only when everything was linear
static Res linQuery(const std::vector<char> &use, const std::vector<Constraint> &extra)
{
    z3::context &c = *gctx();
    bool exact = true; std::unordered_map<Mono, int, MonoH> ids; std::vector<z3::expr> ex; std::set<int> seenv; z3::expr_vector fs(c);
    auto q = [&](const mpq_class &v) { return c.real_val(v.get_str().c_str()); };
    auto mono = [&](const Mono &m) -> z3::expr {
        auto it = ids.find(m); if (it != ids.end()) return ex[it->second];
        z3::expr e = c.real_const(("m" + std::to_string(ex.size())).c_str()); ids[m] = ex.size(); ex.push_back(e);
        int deg = 0, v = -1; for (int i = 0; i < NV; i++) if (m.e[i]) { deg += m.e[i]; v = i; }
        if (deg == 1 && NVs[v].kind == 0)
        {
            VarInfo &vi = V[N[NVs[v].term].aux]; if (vi.pos) fs.push_back(e > 0); else if (vi.nonneg && !vi.haslo) fs.push_back(e >= 0);
            if (vi.haslo) fs.push_back(e >= q(mpq_class(vi.lo))); if (vi.hashi) fs.push_back(e <= q(mpq_class(vi.hi)));
        }
        else
        {
            exact = false; Poly p; p.t.push_back({m, mpq_class(1)}); int s = psign_syntactic(p); if (s == 2) fs.push_back(e > 0); else if (s == 1) fs.push_back(e >= 0);
        }
        return e;
    };
    auto add = [&](const Constraint &k) {
        if (!k.haspoly) { exact = false; return; }
        if (k.mask == 7) return;
        if (k.mask == 5) { exact = false; return; }
        z3::expr_vector s(c); for (auto &x : k.p.t) { if (x.first == mono1()) s.push_back(q(x.second)); else s.push_back(q(x.second) * mono(x.first)); }
        z3::expr e = s.size() ? z3::sum(s) : c.real_val(0), z = c.real_val(0);
        switch (k.mask) { case 1: fs.push_back(e < z); break; case 2: fs.push_back(e == z); break; case 4: fs.push_back(e > z); break; case 3: fs.push_back(e <= z); break; case 6: fs.push_back(e >= z); break; default: fs.push_back(c.bool_val(false)); }
    };
    try
    {
        for (size_t i = 0; i < PC.size(); i++) if (use[i]) add(PC[i]);
        for (auto &k : extra) add(k);
        z3::solver s(c, "QF_LRA"); z3::params p(c); p.set("timeout", 300u); s.set(p);
        for (unsigned i = 0; i < fs.size(); i++) s.add(fs[i]);
        z3::check_result r = s.check(); if (r == z3::unsat) return UNSAT; if (r == z3::sat && exact) return SAT;
    }
    catch (z3::exception &) {}
    return UNKNOWN;
}
// path constraints (cone of influence unless full) plus extra
static Res solve(const std::vector<Constraint> &extra, bool full, Model *model, double tmo = -1, bool allowcvc = true, const std::vector<std::pair<T, mpq_class>> *fix = nullptr)
{
    if (tmo < 0) tmo = g_query_timeout;
    double t0 = now();
    std::vector<char> use(PC.size(), full);
    if (!full)
    {
        std::set<T> vs; for (auto &e : extra) consvars(e, vs);
        while (PCvars.size() < PC.size()) { std::set<T> s; consvars(PC[PCvars.size()], s); PCvars.push_back(s); }
        bool ch = true;
        while (ch) { ch = false; for (size_t i = 0; i < PC.size(); i++) if (!use[i]) { bool hit = PCvars[i].empty(); for (T x : PCvars[i]) if (vs.count(x)) { hit = true; break; } if (hit) { use[i] = 1; ch = true; vs.insert(PCvars[i].begin(), PCvars[i].end()); } } }
    }
    if (!full && g_decision_mode)   // dropping constraints is sound: a decision only uses UNSAT
        for (size_t i = 0; i < PC.size(); i++) if (use[i] && (PC[i].haspoly ? PC[i].p.t.size() > 300 : dagBig(PC[i].term))) use[i] = 0;
    if (!model && !fix)
    {
        Res r = linQuery(use, extra);
        size_t mons = 0; int deg = 0; bool small = true; auto chk = [&](const Constraint &k) { if (!k.haspoly) { small = false; return; } mons += k.p.t.size(); for (auto &x : k.p.t) { int d = 0; for (int i = 0; i < NV; i++) { d += x.first.e[i]; if (x.first.e[i] && NVs[i].kind >= 2) small = false; } deg = std::max(deg, d); } };
        if (r == UNKNOWN) { for (size_t i = 0; i < PC.size(); i++) if (use[i]) chk(PC[i]); for (auto &k : extra) chk(k); }
        if (r == UNKNOWN && small && mons <= 60 && deg <= 3)   // small polynomial queries do not need a process of their own
            try
            {
                z3::context *cx = gctx(); Enc en(*cx); z3::expr_vector fs(*cx);
                for (size_t i = 0; i < PC.size(); i++) if (use[i]) fs.push_back(en.cons(PC[i]));
                for (auto &e : extra) fs.push_back(en.cons(e));
                z3::solver s = z3::tactic(*cx, "qfnra-nlsat").mk_solver(); z3::params p(*cx); p.set("timeout", 150u); p.set("rlimit", 2000000u); try { s.set(p); } catch (z3::exception &) {}
                for (unsigned i = 0; i < en.defs.size(); i++) s.add(en.defs[i]);
                for (unsigned i = 0; i < fs.size(); i++) s.add(fs[i]);
                z3::check_result cr = s.check(); r = cr == z3::unsat ? UNSAT : cr == z3::sat ? SAT : UNKNOWN;
            }
            catch (z3::exception &) {}
        if (r != UNKNOWN) { ST.q_z3++; double dt = now() - t0; ST.z3time += dt; if (r == UNSAT) ST.unsat++; else ST.sat++; if (g_verbose > 1) fprintf(stderr, "[in %.3fs %s]\n", dt, r == UNSAT ? "unsat" : "sat"); return r; }
    }
    // the query runs in a child of its own: z3 may ignore its timeout inside polynomial factorisation
    int pf[2]; if (pipe(pf)) return UNKNOWN;
    fflush(stderr); pid_t pid = fork();
    if (pid == 0)
    {
        close(pf[0]); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); alarm(0); prctl(PR_SET_PDEATHSIG, SIGKILL);
        Res res = UNKNOWN; std::string smt; Model lm; long ncvc = 0; double tcvc = 0;
        try
        {
            z3::context &c = *gctx(); Enc en(c); z3::expr_vector fs(c);
            for (size_t i = 0; i < PC.size(); i++) if (use[i]) fs.push_back(en.cons(PC[i]));
            for (auto &e : extra) fs.push_back(en.cons(e));
            if (fix) for (auto &f : *fix) fs.push_back(en.var(f.first) == en.q(f.second));
            for (int round = 0; round < 2; round++)
            {
                z3::solver s = round == 0 ? z3::tactic(c, "qfnra-nlsat").mk_solver() : z3::solver(c);
                z3::params p(c); p.set("timeout", (unsigned)(tmo * 1000 * (round == 0 ? 0.6 : 0.4))); p.set("rlimit", g_rlimit);
                try { s.set(p); } catch (z3::exception &) {}
                for (unsigned i = 0; i < en.defs.size(); i++) s.add(en.defs[i]);
                for (unsigned i = 0; i < fs.size(); i++) s.add(fs[i]);
                if (round == 0 && g_use_cvc5 && allowcvc) { std::ostringstream o; o << s << "\n(check-sat)\n"; smt = o.str(); }
                z3::check_result r = s.check();
                if (r == z3::unsat) { res = UNSAT; break; }
                if (r == z3::sat) { res = SAT; if (model) readModel(en, s, &lm); break; }
            }
        }
        catch (z3::exception &e) { if (g_verbose) fprintf(stderr, "z3: %s\n", e.msg()); }
        if (res == UNKNOWN && !smt.empty()) { double c0 = now(); Res r2 = cvc5Query(smt, tmo); ncvc = 1; tcvc = now() - c0; if (r2 == UNSAT || (r2 == SAT && !model)) res = r2; }
        std::ostringstream o; o.precision(17); o << (int)res << " " << ncvc << " " << tcvc << " " << lm.v.size(); for (auto &kv : lm.v) o << " " << kv.first << " " << kv.second; o << " .";
        std::string x = o.str(); size_t k = 0; while (k < x.size()) { ssize_t w = write(pf[1], x.data() + k, x.size() - k); if (w <= 0) break; k += w; }
        _exit(0);
    }
    close(pf[1]); std::string got; double dl = now() + tmo * (g_use_cvc5 && allowcvc ? 2.2 : 1.15) + 0.3;
    while (true)
    {
        double left = dl - now(); if (left <= 0) break; struct pollfd pd{pf[0], POLLIN, 0}; if (poll(&pd, 1, (int)(left * 1000) + 1) <= 0) { if (now() < dl) continue; break; }
        char buf[4096]; ssize_t n = read(pf[0], buf, sizeof buf); if (n <= 0) break; got.append(buf, n);
    }
    close(pf[0]); kill(pid, SIGKILL); int wst; waitpid(pid, &wst, 0);
    Res res = UNKNOWN; double tc = 0;
    if (!got.empty() && got.back() == '.') { std::istringstream is(got); int r; long nc; size_t k; is >> r >> nc >> tc >> k; res = (Res)r; ST.q_cvc5 += nc; ST.cvctime += tc; if (model && res == SAT) { model->valid = true; for (size_t i = 0; i < k; i++) { T t; double v; is >> t >> v; model->v[t] = v; } } }
    ST.q_z3++; double dt = now() - t0; ST.z3time += dt - tc;
    if (res == UNSAT) ST.unsat++; else if (res == SAT) ST.sat++; else ST.unknown++;
    if (g_verbose > 1) fprintf(stderr, "[q %.2fs %s pc=%zu]\n", dt, res == UNSAT ? "unsat" : res == SAT ? "sat" : "unknown", PC.size());
    return res;
}
static int swapmask(int m) { return (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); }
static void addPC(const Constraint &k) { PC.push_back(k); }

// polynomial with the same sign as t (times known-sign atoms); returns false when no normal form is available
static bool signPoly(T d, Poly &p, bool eqonly)
{
    RF r; if (!trynf(d, r)) return false;
    p = r.num; if (p.zero()) return true;
    if (!eqonly)
        for (auto &kv : r.den) if (kv.second & 1)
        {
            int s = psign_syntactic(atoms[kv.first]);
            if (s >= 1) continue; if (s <= -1) { p = pscale(p, -1); continue; }
            auto it = polymask.find(pkey(atoms[kv.first])); int m = it == polymask.end() ? 7 : it->second;
            if ((m & 1) == 0) continue; if ((m & 4) == 0) { p = pscale(p, -1); continue; }
            try { p = pmul(p, atoms[kv.first]); } catch (NFOverflow &) { return false; }
        }
    if (!p.zero()) { mpq_class c = pcontent(p); p = pscale(p, 1 / c); }
    return true;
}
struct ChoiceRec { uint8_t val; uint8_t forced; };
static std::vector<uint8_t> g_prefix; static std::vector<uint8_t> g_taken; static size_t g_pos = 0;
static int g_outfd = -1;
static void emitLine(const std::string &s) { if (g_outfd >= 0) { std::string x = s + "\n"; size_t o = 0; while (o < x.size()) { ssize_t w = write(g_outfd, x.data() + o, x.size() - o); if (w <= 0) break; o += w; } } else fprintf(stderr, "%s\n", s.c_str()); }
static std::string prefixStr(const std::vector<uint8_t> &p) { std::string s; for (uint8_t b : p) { char c[4]; snprintf(c, 4, "%02x", b); s += c; } return s.empty() ? "-" : s; }
static void pushAlt(uint8_t v) { std::vector<uint8_t> p = g_taken; p.push_back(v); emitLine("FORK " + prefixStr(p)); }

// T with the infinitesimal variables set to 0
static std::unordered_map<T, T> substmemo; static bool g_hasinf = false;
static T subst0(T t);
static bool poolSat(const Constraint &k);
static double g_decide_timeout = 2.0; static int g_unk = 0;
static Res decideSolve(const Constraint &k)
{
    if (poolSat(k)) return SAT;
    bool big = k.haspoly ? k.p.t.size() > 300 : dagBig(k.term);
    double t = g_unk > 6 ? g_decide_timeout * 0.25 : g_decide_timeout; if (big) { if (g_unk > 2) return UNKNOWN; t = std::min(t, 0.5); }
    g_decision_mode = true; Res r = solve({k}, false, nullptr, t, false); g_decision_mode = false;
    if (r == UNKNOWN) g_unk++;
    return r;
}
// a decision on a polynomial linear in an input that nothing constrains yet can go both ways
static bool freeLinear(const Constraint &k)
{
    if (!k.haspoly || g_hasinf) return false;
    std::map<int, int> occ; for (auto &x : k.p.t) for (int i = 0; i < NV; i++) if (x.first.e[i]) occ[i]++;
    for (auto &x : k.p.t)
    {
        int v = -1, deg = 0; for (int i = 0; i < NV; i++) if (x.first.e[i]) { v = i; deg += x.first.e[i]; }
        if (deg != 1 || occ[v] != 1 || NVs[v].kind != 0) continue;
        const VarInfo &vi = V[N[NVs[v].term].aux]; if (vi.nonneg || vi.pos || vi.haslo || vi.hashi || vi.inf) continue;
        Constraint rest = k; std::vector<std::pair<Mono, mpq_class>> r; for (auto &y : k.p.t) if (&y != &x) r.push_back(y); rest.p.t = r;
        std::set<T> vs; consvars(rest, vs); T tv = NVs[v].term; if (vs.count(tv)) continue;
        while (PCvars.size() < PC.size()) { std::set<T> s; consvars(PC[PCvars.size()], s); PCvars.push_back(s); }
        bool hit = false; for (size_t i = 0; i < PC.size() && !hit; i++) hit = PCvars[i].count(tv) > 0;
        if (!hit) return true;
    }
    return false;
}
// a polynomial with a dominating constant-like part (such as the largest double used as infinity): its sign, 0 when unknown.
// This is the stated assumption that no quantity exceeds 1e150 in magnitude.
static int hugeSign(const Poly &p)
{
    if (p.t.size() < 2) return 0;
    mpq_class mn = abs(p.t[0].second), mx = mn; for (auto &x : p.t) { mpq_class a = abs(x.second); if (a < mn) mn = a; if (a > mx) mx = a; }
    static const mpq_class big = [] { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 10, 200); return mpq_class(z); }();
    if (mx < mn * big) return 0;
    Poly q; for (auto &x : p.t) if (abs(x.second) * big > mx) q.t.push_back({x.first, x.second / mx});
    if (q.t.size() == 1 && q.t[0].first == mono1()) return sgn(q.t[0].second);
    int s = psign_syntactic(q); return s == 2 ? 1 : s == -2 ? -1 : 0;
}
// sign of an expression without inputs (square roots, logarithms ... of constants), when floating point evaluation leaves no doubt
static bool closedNum(T t, long double &v)
{
    const Node n = N[t]; long double a, b;
    switch (n.op)
    {
    case CONST: v = cv(t).get_d(); return std::isfinite((double)v);
    case ADD: case MUL: case DIV: if (!closedNum(n.a, a) || !closedNum(n.b, b)) return false; v = n.op == ADD ? a + b : n.op == MUL ? a * b : a / b; return std::isfinite((double)v);
    case SQRT: if (!closedNum(n.a, a) || a < 0) return false; v = sqrtl(a); return true;
    case LOG: if (!closedNum(n.a, a) || a <= 0) return false; v = logl(a); return true;
    case EXP: if (!closedNum(n.a, a) || fabsl(a) > 600) return false; v = expl(a); return true;
    default: return false;
    }
}
static bool closedVar(int i, long double &v);
static bool closedPoly(const Poly &p, long double &v, long double &sc)
{
    v = sc = 0;
    for (auto &x : p.t) { long double c = x.second.get_d(); for (int i = 0; i < (int)NVs.size(); i++) if (x.first.e[i]) { long double w; if (!closedVar(i, w)) return false; for (int k = 0; k < x.first.e[i]; k++) c *= w; } v += c; sc += fabsl(c); }
    return std::isfinite((double)sc);
}
static std::map<int, std::pair<bool, long double>> closedmemo;
static bool closedVar(int i, long double &v)
{
    auto it = closedmemo.find(i); if (it != closedmemo.end()) { v = it->second.second; return it->second.first; }
    bool ok = false; v = 0; long double s;
    if (NVs[i].kind == 1) { ok = closedPoly(NVs[i].P, v, s) && v > 1e-9L * s; if (ok) v = sqrtl(v); }
    else if (NVs[i].kind == 3 || NVs[i].kind == 0) { const Node &n = N[NVs[i].term]; ok = (n.op == LOG || n.op == EXP || n.op == SQRT) && closedNum(NVs[i].term, v); }
    closedmemo[i] = {ok, v}; return ok;
}
static int closedSign(const Poly &p)
{
    long double v, s; if (p.t.size() > 64 || !closedPoly(p, v, s)) return 0;
    return v > 1e-9L * s ? 1 : v < -1e-9L * s ? -1 : 0;
}
static int decideMask(T d, int ask)
{
    ST.decisions++;
    if (isc(d)) { int s = sgn(cv(d)); return ((s < 0 ? 1 : s == 0 ? 2 : 4) & ask) != 0; }
    if (g_hasinf)
    {
        T d0 = subst0(d);
        if (d0 != d)
        {
            if (isc(d0)) { int s = sgn(cv(d0)); if (s == 0) { RF r; if (trynf(d, r) && r.num.zero()) return (ask & 2) != 0; throw PathAbort{1, "degenerate at t=0"}; } return ((s < 0 ? 1 : 4) & ask) != 0; }
            RF r0; if (trynf(d0, r0) && r0.num.zero()) { RF r; if (trynf(d, r) && r.num.zero()) return (ask & 2) != 0; throw PathAbort{1, "degenerate at t=0"}; }
            // a sign of zero at t=0 is degenerate unless excluded; keep only open sign cells
            bool pos = decideMask(d0, 4); if (pos) return (ask & 4) != 0;
            bool neg = decideMask(d0, 1); if (neg) return (ask & 1) != 0;
            throw PathAbort{1, "degenerate at t=0"};
        }
        d = d0;
    }
    Poly p; bool hp = signPoly(d, p, ask == 2 || ask == 5);
    int known = 7; bool flip = false; std::string key; T tkey = d;
    if (hp)
    {
        if (p.zero()) return (ask & 2) != 0;
        if (p.t.size() == 1 && p.t[0].first == mono1()) return (p.t[0].second > 0 ? 4 : 1) & ask ? 1 : 0;
        if (int hs = closedSign(p)) return ((hs < 0 ? 1 : 4) & ask) != 0;
        if (int hs = hugeSign(p)) return ((hs < 0 ? 1 : 4) & ask) != 0;
        if (p.t[0].second < 0) { p = pscale(p, -1); flip = true; ask = swapmask(ask); }
        int s = psign_syntactic(p); if (s == 2) known &= 4; else if (s == 1) known &= 6; else if (s == -2) known &= 1; else if (s == -1) known &= 3;
        key = pkey(p); auto it = polymask.find(key); if (it != polymask.end()) known &= it->second;
    }
    else { auto it = termmask.find(d); if (it != termmask.end()) known &= it->second; T nd = tneg(d); auto i2 = termmask.find(nd); if (i2 != termmask.end()) known &= swapmask(i2->second); }
    if ((known & ~ask) == 0) return 1;
    if ((known & ask) == 0) return 0;
    int ma = known & ask, mb = known & ~ask & 7;
    auto commit = [&](int m) { Constraint k{m, hp, p, d}; addPC(k); if (hp) polymask[key] = known & m; else termmask[d] = known & m; };
    if (g_pos < g_prefix.size())
    {
        uint8_t v = g_prefix[g_pos++]; g_taken.push_back(v);
        if (v == 2 || v == 3) { if (hp) polymask[key] = v == 2 ? ma : mb; else termmask[d] = v == 2 ? ma : mb; return v == 2; }  // implied, no constraint needed
        commit(v ? ma : mb); return v;
    }
    Constraint ka{ma, hp, p, d}, kb{mb, hp, p, d};
    bool fl = known == 7 && freeLinear(ka);
    Res ra = fl ? SAT : decideSolve(ka);
    if (ra == UNSAT) { g_taken.push_back(3); g_pos++; if (hp) polymask[key] = mb; else termmask[d] = mb; return 0; }
    Res rb = fl ? SAT : decideSolve(kb);
    if (rb == UNSAT) { g_taken.push_back(2); g_pos++; if (hp) polymask[key] = ma; else termmask[d] = ma; return 1; }
    if (g_verbose > 1) fprintf(stderr, "[fork %s on %s]\n", (ra == UNKNOWN || rb == UNKNOWN) ? "(unknown)" : "", hp ? pstr(p).c_str() : "dag");
    pushAlt(1); g_taken.push_back(0); g_pos++;
    commit(mb); (void)flip;
    return 0;
}
static int atomSign(int id)
{
    const Poly &p = atoms[id]; int s = psign_syntactic(p); if (s > 0) return 1; if (s < 0) return -1;
    auto it = polymask.find(pkey(p)); if (it != polymask.end()) { if (!(it->second & 1)) return 1; if (!(it->second & 4)) return -1; }
    Poly q = p; std::string key = pkey(q);
    int known = it == polymask.end() ? 7 : it->second;
    auto rec = [&](int m) { polymask[key] = known & m; };
    if (g_pos < g_prefix.size()) { uint8_t v = g_prefix[g_pos++]; g_taken.push_back(v); if (v < 2) addPC({v ? 6 : 1, true, q, 0}); rec((v & 1) == (v < 2 ? 1 : 0) ? 6 : 1); return ((v & 1) == (v < 2 ? 1 : 0)) ? 1 : -1; }
    Constraint cneg{1, true, q, 0}, cpos{4, true, q, 0};
    Res a = decideSolve(cneg);
    if (a == UNSAT) { g_taken.push_back(2); g_pos++; rec(6); return 1; }
    Res b = decideSolve(cpos);
    if (b == UNSAT) { g_taken.push_back(3); g_pos++; rec(1); return -1; }
    pushAlt(0); g_taken.push_back(1); g_pos++; addPC({6, true, q, 0}); rec(6); return 1;
}
// ------------------------------------------------------------------------------------------------ derivative / substitution
static std::map<std::pair<T, T>, T> dmemo;
static T deriv(T t, T x)
{
    auto kk = std::make_pair(t, x); auto it = dmemo.find(kk); if (it != dmemo.end()) return it->second;
    std::vector<T> st{t};
    while (!st.empty())
    {
        T u = st.back(); auto k = std::make_pair(u, x); if (dmemo.count(k)) { st.pop_back(); continue; }
        Node n = N[u]; if (n.op == CONST) { dmemo[k] = T0; continue; } if (n.op == VAR) { dmemo[k] = u == x ? T1 : T0; continue; }
        bool bin = (n.op == ADD || n.op == MUL || n.op == DIV || n.op == POW || n.op == UF);
        if (!dmemo.count({n.a, x})) { st.push_back(n.a); continue; } if (bin && !dmemo.count({n.b, x})) { st.push_back(n.b); continue; }
        T da = dmemo[{n.a, x}], db = bin ? dmemo[{n.b, x}] : T0, r = T0;
        switch (n.op)
        {
        case ADD: r = tadd(da, db); break;
        case MUL: r = tadd(tmul(da, n.b), tmul(n.a, db)); break;
        case DIV: r = tdivraw(tsub(da, tmul(u, db)), n.b); break;
        case SQRT: r = tdivraw(da, tmul(mkconst(2), u)); break;
        case EXP: r = tmul(u, da); break;
        case LOG: r = tdivraw(da, n.a); break;
        case SIN: r = tmul(mk(COS, n.a, 0), da); break;
        case COS: r = tneg(tmul(mk(SIN, n.a, 0), da)); break;
        case ATAN: r = tdivraw(da, tadd(T1, tmul(n.a, n.a))); break;
        case ACOS: r = tneg(tdivraw(da, mk(SQRT, tsub(T1, tmul(n.a, n.a)), 0))); break;
        case ASIN: r = tdivraw(da, mk(SQRT, tsub(T1, tmul(n.a, n.a)), 0)); break;
        case POW: if (isc(n.b)) r = tmul(tmul(n.b, mk(POW, n.a, mkconst(cv(n.b) - 1))), da); else throw PathAbort{2, "derivative of pow"}; break;
        default: if (da == T0 && db == T0) r = T0; else throw PathAbort{2, "derivative of uninterpreted function"};
        }
        dmemo[k] = r; st.pop_back();
    }
    return dmemo[kk];
}
static T rawUnary(Op op, T a)
{
    if (op == SQRT && isc(a) && cv(a) >= 0) { const mpq_class &q = cv(a); if (mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) return mkconst(mpq_class(sqrt(mpz_class(q.get_num())), sqrt(mpz_class(q.get_den())))); }
    if (a == T0) { if (op == EXP || op == COS) return T1; if (op == SIN || op == ATAN || op == ASIN) return T0; }
    if (op == LOG)
    {   // the logarithm of a rational constant becomes a combination of logarithms of primes
        if (!isc(a)) { RF r; bool f = g_nf_fork; g_nf_fork = false; bool ok = trynf(a, r); g_nf_fork = f; if (ok && r.den.empty() && r.num.t.size() == 1 && r.num.t[0].first == mono1()) a = mkconst(r.num.t[0].second); }
        if (a == T1) return T0;
        if (isc(a) && cv(a) > 0)
        {
            T q = T0; mpz_class part[2] = {cv(a).get_num(), cv(a).get_den()}; int atoms = 0;
            for (int k = 0; k < 2; k++)
            {
                auto put = [&](const mpz_class &b, long e) { T l = mk(LOG, mkconst(mpq_class(b)), 0); q = tadd(q, tmul(mkconst(mpq_class(k ? -e : e)), l)); atoms++; };
                for (unsigned long p = 2; p < 2000 && mpz_class(p) * p <= part[k]; p++) { long e = 0; while (mpz_divisible_ui_p(part[k].get_mpz_t(), p)) { part[k] /= p; e++; } if (e) put(p, e); }
                if (part[k] != 1) put(part[k], 1);
            }
            if (atoms) return q;
        }
    }
    if (op == EXP && !isc(a))
    {   // canonical argument: a polynomial with few terms becomes a sum of monomials, exp(a + b) = exp(a) exp(b)
        RF r; bool f = g_nf_fork; g_nf_fork = false; bool ok = trynf(a, r); g_nf_fork = f;
        if (ok && r.den.empty() && r.num.t.size() <= 4)
        {
            if (r.num.zero()) return T1;
            if (r.num.t.size() > 1) { T q = T1; for (auto &x : r.num.t) { Poly m; m.t.push_back(x); q = tmul(q, rawUnary(EXP, polyTerm(m))); } return q; }
            a = polyTerm(r.num); if (isc(a)) return mk(op, a, 0);
        }
        // exp(c u) = exp(u/2)^(2c), so that exponentials of rational multiples of one term are related algebraically
        const Node n = N[a]; mpq_class c = 1; T u = a;
        if (n.op == MUL && isc(n.a)) { c = cv(n.a); u = n.b; } else if (n.op == MUL && isc(n.b)) { c = cv(n.b); u = n.a; } else if (n.op == DIV && isc(n.b)) { c = 1 / cv(n.b); u = n.a; }
        mpq_class c2 = 2 * c;
        if (c2.get_den() == 1 && abs(c2.get_num()) <= 8)
        {
            T e = mk(EXP, tmul(mkconst(mpq_class(1, 2)), u), 0), r = T1; for (long k = labs(c2.get_num().get_si()); k > 0; k--) r = tmul(r, e);
            return c2 < 0 ? tdivraw(T1, r) : r;
        }
    }
    return mk(op, a, 0);
}
static T subst0(T t0)
{
    auto it = substmemo.find(t0); if (it != substmemo.end()) return it->second;
    std::vector<T> st{t0};
    while (!st.empty())
    {
        T u = st.back(); if (substmemo.count(u)) { st.pop_back(); continue; }
        Node n = N[u]; if (n.op == CONST) { substmemo[u] = u; continue; } if (n.op == VAR) { substmemo[u] = V[n.aux].inf ? T0 : u; continue; }
        bool bin = (n.op == ADD || n.op == MUL || n.op == DIV || n.op == POW || n.op == UF);
        if (!substmemo.count(n.a)) { st.push_back(n.a); continue; } if (bin && !substmemo.count(n.b)) { st.push_back(n.b); continue; }
        T a = substmemo[n.a], b = bin ? substmemo[n.b] : 0, r;
        if (a == n.a && (!bin || b == n.b)) r = u;
        else switch (n.op)
        {
        case ADD: r = tadd(a, b); break; case MUL: r = tmul(a, b); break;
        case DIV: if (isc(b) && cv(b) == 0) throw PathAbort{1, "degenerate division at t=0"}; r = tdivraw(a, b); break;
        case POW: case UF: r = mk(n.op, a, b, n.aux); break;
        default: r = rawUnary(n.op, a);
        }
        substmemo[u] = r; st.pop_back();
    }
    return substmemo[t0];
}
// ------------------------------------------------------------------------------------------------ runtime entry points
static bool g_div0_assume = false;
static double QNAN = std::numeric_limits<double>::quiet_NaN();
static int signOfSym(double x) { T t = fromd(x); if (decideMask(t, 2)) return 0; return decideMask(t, 4) ? 1 : -1; }
extern "C" {
bool sym_prov_zero(double v);
double __sym_fadd(double a, double b)
{
    if (isplain(a) && isplain(b)) { volatile double s = a + b; if (!std::isfinite(s)) { if (!std::isfinite(a) || !std::isfinite(b)) return s; } else { volatile double bb = s - a, e = (a - (s - bb)) + (b - bb); if (e == 0) return s; } return tod(tadd(fromd(a), fromd(b))); }
    if (isplain(a) && !std::isfinite(a)) return a; if (isplain(b) && !std::isfinite(b)) return b;
    return tod(tadd(fromd(a), fromd(b)));
}
double __sym_fneg(double a) { if (isplain(a)) return -a; return tod(tneg(fromd(a))); }
double __sym_fsub(double a, double b)
{
    if (isplain(a) && isplain(b)) { volatile double nb = -b; return __sym_fadd(a, nb); }
    if (isplain(a) && !std::isfinite(a)) return a; if (isplain(b) && !std::isfinite(b)) return -b;
    return tod(tsub(fromd(a), fromd(b)));
}
double __sym_fmul(double a, double b)
{
    if (isplain(a) && isplain(b))
    {
        volatile double p = a * b; if (!std::isfinite(a) || !std::isfinite(b)) return p;
        if (std::isfinite(p) && (p != 0 ? std::fabs(p) > 1e-290 : (a == 0 || b == 0)) && std::fma(a, b, -p) == 0) return p;
        return tod(tmul(fromd(a), fromd(b)));
    }
    if ((isplain(a) && !std::isfinite(a)) || (isplain(b) && !std::isfinite(b)))
    { double c = isplain(a) ? a : b, s = isplain(a) ? b : a; if (std::isnan(c)) return c; int sg = signOfSym(s); return sg == 0 ? QNAN : sg * c; }
    return tod(tmul(fromd(a), fromd(b)));
}
double __sym_fdiv(double a, double b)
{
    if (isplain(a) && isplain(b))
    {
        volatile double q = a / b; if (!std::isfinite(a) || !std::isfinite(b) || b == 0) return q;
        if (std::isfinite(q) && (q != 0 ? std::fabs(q) > 1e-290 && std::fabs(a) > 1e-290 : a == 0) && std::fma(q, b, -a) == 0) return q;
        return tod(tdivraw(fromd(a), fromd(b)));
    }
    if (isplain(a) && !std::isfinite(a)) { if (std::isnan(a)) return a; int s = signOfSym(b); return s == 0 ? a : s * a; }
    if (isplain(b) && !std::isfinite(b)) { if (std::isnan(b)) return b; return 0; }
    T tb = fromd(b), ta = fromd(a);
    if (isc(tb)) { if (cv(tb) == 0) { if (ta == T0) return QNAN; int s = signOfSym(a); return s == 0 ? QNAN : s * INFINITY; } return tod(tdivraw(ta, tb)); }
    if (g_div0_assume)
    {
        // divisor assumed nonzero (stated assumption)
        T d = g_hasinf ? subst0(tb) : tb; Poly p;
        if (signPoly(d, p, true))
        {
            if (p.zero()) throw PathAbort{1, "division by zero excluded"};
            if (p.t[0].second < 0) p = pscale(p, -1);
            std::string k = pkey(p); auto it = polymask.find(k); int m = it == polymask.end() ? 7 : it->second; int s = psign_syntactic(p);
            if (s == 2 || s == -2) m &= 5;
            if (m & 2) { addPC({5, true, p, 0}); polymask[k] = m & 5; }
        }
        else if (!termmask.count(d)) { addPC({5, false, Poly(), d}); termmask[d] = 5; }
        return tod(tdivraw(ta, tb));
    }
    if (decideMask(tb, 2)) { if (ta == T0) return QNAN; int s = isplain(a) ? (a > 0 ? 1 : a < 0 ? -1 : 0) : signOfSym(a); return s == 0 ? QNAN : s * INFINITY; }
    return tod(tdivraw(ta, tb));
}
double __sym_fabs(double a)
{
    if (isplain(a)) return std::fabs(a);
    T t = fromd(a); return decideMask(t, 6) ? tod(t) : tod(tneg(t));
}
bool __sym_fcmp(double a, double b, int pred)
{   // 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
    static const int maskof[15] = {0, 2, 4, 6, 1, 3, 5, 0, 0, 2, 4, 6, 1, 3, 5};
    bool na = isplain(a) && std::isnan(a), nb = isplain(b) && std::isnan(b);
    if (na || nb) return pred >= 8;
    if (pred == 7) return true; if (pred == 8) return false;
    int ask = maskof[pred], s;
    if (isplain(a) && isplain(b)) s = a < b ? 1 : a == b ? 2 : 4;
    else if (isplain(a) && std::isinf(a)) s = a > 0 ? 4 : 1;
    else if (isplain(b) && std::isinf(b)) s = b > 0 ? 1 : 4;
    else { T d = tsub(fromd(a), fromd(b)); return decideMask(d, ask) != 0; }
    return (s & ask) != 0;
}
bool __sym_fpclass(double a, int m)
{
    if (isplain(a)) { int c = std::isnan(a) ? 3 : std::isinf(a) ? (a < 0 ? 4 : 512) : a == 0 ? (std::signbit(a) ? 32 : 64) : (a < 0 ? 8 : 256); return (c & m) != 0; }
    int fin = m & 504; if (fin == 504) return true; if (fin == 0) return false;
    int ask = ((m & 24) ? 1 : 0) | ((m & 96) ? 2 : 0) | ((m & 384) ? 4 : 0);
    return decideMask(fromd(a), ask) != 0;
}
static long toint(double a)
{
    if (isplain(a)) return (long)a;
    T t = fromd(a); if (isc(t)) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), cv(t).get_num_mpz_t(), cv(t).get_den_mpz_t()); return z.get_si(); }
    { RF r; long double v, sc; if (trynf(t, r) && r.den.empty() && closedPoly(r.num, v, sc) && fabsl(v) < 1e15L) { long k = (long)v; if (fabsl(v - roundl(v)) > 1e-9L * (1 + sc)) return k; } }
    for (int k = 0; k < 12; k++)
    {
        if (decideMask(tsub(t, mkconst(k + 1)), 1) && decideMask(tsub(t, mkconst(k ? k : -1)), k ? 6 : 4)) return k;
        if (k && decideMask(tadd(t, mkconst(k + 1)), 4) && decideMask(tadd(t, mkconst(k)), 3)) return -k;
    }
    throw PathAbort{2, "float to integer conversion of a wide symbolic value"};
}
int __sym_fptosi32(double a) { return (int)toint(a); }
long __sym_fptosi64(double a) { return toint(a); }
double __sym_unary(int op, double a)
{
    if (isplain(a))
    {
        if (op == 1)
        {
            if (!(a >= 0) || std::isinf(a)) return std::sqrt(a);
            double s = std::sqrt(a); if (std::fma(s, s, -a) == 0) return s;
            return tod(rawUnary(SQRT, fromd(a)));
        }
        if (!std::isfinite(a)) { if (op == 2) return std::exp(a); if (op == 3) return std::log(a); if (std::isnan(a)) return a; }
    }
    switch (op)
    {
    case 10: if (isplain(a)) return std::floor(a); break; case 11: if (isplain(a)) return std::ceil(a); break;
    case 18: if (isplain(a)) return std::round(a); break; case 20: if (isplain(a)) return std::rint(a); break; case 21: if (isplain(a)) return std::trunc(a); break;
    default: break;
    }
    if (op == 10 || op == 11 || op == 18 || op == 20 || op == 21)
    {
        long k = toint(a); T t = fromd(a);
        if (op == 21) return k;
        if (op == 10) { if (decideMask(tsub(t, mkconst(mpq_class(k))), 1)) return k - 1; return k; }
        if (op == 11) { if (decideMask(tsub(t, mkconst(mpq_class(k))), 4)) return k + 1; return k; }
        throw PathAbort{2, "rounding of a symbolic value"};
    }
    T t = fromd(a);
    switch (op)
    {
    case 1: if (decideMask(t, 1)) return QNAN; return tod(rawUnary(SQRT, t));
    case 2: return tod(rawUnary(EXP, t));
    case 3: if (decideMask(t, 2)) return -INFINITY; if (decideMask(t, 1)) return QNAN; return tod(rawUnary(LOG, t));
    case 4: return tod(rawUnary(SIN, t)); case 5: return tod(rawUnary(COS, t));
    case 6: return tod(tdivraw(rawUnary(SIN, t), rawUnary(COS, t)));
    case 7: return tod(rawUnary(ACOS, t)); case 8: return tod(rawUnary(ASIN, t)); case 9: return tod(rawUnary(ATAN, t));
    case 14: return tod(tmul(mkconst(mpq_class(1, 2)), tsub(rawUnary(EXP, t), rawUnary(EXP, tneg(t)))));
    case 15: return tod(tmul(mkconst(mpq_class(1, 2)), tadd(rawUnary(EXP, t), rawUnary(EXP, tneg(t)))));
    default: { if (isplain(a)) { if (op == 12) return std::log10(a); if (op == 13) return std::log2(a); if (op == 17) return std::exp2(a); if (op == 19) return std::cbrt(a); } throw PathAbort{2, "unsupported math function " + std::to_string(op)}; }
    }
}
double __sym_binary(int op, double a, double b)
{
    if (op == 4) return __sym_fcmp(a, b, 2) || (isplain(b) && std::isnan(b)) ? a : b;
    if (op == 5) return __sym_fcmp(a, b, 4) || (isplain(b) && std::isnan(b)) ? a : b;
    if (op == 1)
    {
        if (isplain(b) && b == 0) return 1; 
        if ((isplain(a) && !std::isfinite(a)) || (isplain(b) && !std::isfinite(b))) return std::pow(isplain(a) ? a : 2, isplain(b) ? b : 2);
        if (isplain(b) && b == std::floor(b) && std::fabs(b) <= 64)
        {
            int k = (int)std::fabs(b); double r = 1; for (int i = 0; i < k; i++) r = __sym_fmul(r, a); return b < 0 ? __sym_fdiv(1, r) : r;
        }
        if (isplain(b) && b == 0.5) return __sym_unary(1, a);
        T t = fromd(a); if (decideMask(t, 1)) return QNAN; if (decideMask(t, 2)) return isplain(b) && b < 0 ? INFINITY : 0;
        return tod(mk(POW, t, fromd(b)));
    }
    if (op == 3 && isplain(a) && isplain(b)) return std::fmod(a, b);
    if (op == 2 && isplain(a) && isplain(b)) return std::atan2(a, b);
    throw PathAbort{2, "unsupported binary math function"};
}
void *__sym_alloc(size_t n)
{
    uint64_t *p = (uint64_t *)malloc(n + 16); for (size_t i = 0; i < n / 8 + 1; i++) p[i] = TAGU | 0xDEAD; return p;
}
static unsigned char *g_cover; static size_t g_ncover = 1 << 19;
void __sym_enter(int id) { if (g_cover && (size_t)id < g_ncover) g_cover[id] = 1; }
}
// ------------------------------------------------------------------------------------------------ harness API
static std::map<std::string, int> namecount; static std::vector<std::pair<std::string, T>> inputs; static std::vector<std::pair<std::string, int>> choices;
static std::string uniq(const char *n) { int k = namecount[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
static double g_reltol = 1e-6;
bool sym_symbolic() { return true; }
void sym_tol(double t) { g_reltol = t; }
void sym_div0_assume(bool on) { g_div0_assume = on; }
void sym_stop() { throw PathAbort{0, ""}; }
std::string sym_fmt(const char *fmt, ...) { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
static double mkinput(const char *n, VarInfo vi) { vi.name = uniq(n); T t = newvar(vi); inputs.push_back({vi.name, t}); return tod(t); }
double sym_real(const char *n) { return mkinput(n, VarInfo{"", false, false, false, false, 0, 0, false}); }
double sym_real(const char *n, double lo, double hi) { double r = mkinput(n, VarInfo{"", lo >= 0, lo > 0, true, true, lo, hi, false}); T t = fromd(r); addPC({6, false, Poly(), tsub(t, mkconst(mpq_class(lo)))}); addPC({6, false, Poly(), tsub(mkconst(mpq_class(hi)), t)}); return r; }
double sym_pos(const char *n) { return mkinput(n, VarInfo{"", true, true, false, false, 0, 0, false}); }
int sym_choice(const char *n, int k)
{
    std::string nm = uniq(n); int v = 0;
    if (k > 1)
    {
        if (g_pos < g_prefix.size()) { v = g_prefix[g_pos++]; g_taken.push_back(v); }
        else { for (int i = k - 1; i >= 1; i--) pushAlt(i); g_taken.push_back(0); g_pos++; }
    }
    choices.push_back({nm, v}); return v;
}
static void assumeMask(double a, double b, int mask)
{
    if ((isplain(a) && !std::isfinite(a)) || (isplain(b) && !std::isfinite(b))) throw PathAbort{1, "assume on non-finite value"};
    T d = tsub(fromd(a), fromd(b)); if (g_hasinf) d = subst0(d);
    if (isc(d)) { int s = sgn(cv(d)); if (!((s < 0 ? 1 : s == 0 ? 2 : 4) & mask)) throw PathAbort{1, "assume"}; return; }
    Poly p; bool hp = signPoly(d, p, mask == 2 || mask == 5);
    if (hp && p.zero()) { if (!(mask & 2)) throw PathAbort{1, "assume"}; return; }
    if (hp && p.t[0].second < 0) { p = pscale(p, -1); mask = swapmask(mask); }
    int known = 7; if (hp) { auto it = polymask.find(pkey(p)); if (it != polymask.end()) known = it->second; int s = psign_syntactic(p); if (s == 2) known &= 4; if (s == 1) known &= 6; if (s == -1) known &= 3; if (s == -2) known &= 1; }
    if ((known & ~mask) == 0) return; if ((known & mask) == 0) throw PathAbort{1, "assume"};
    Constraint k{known & mask, hp, p, d};
    if (g_pos >= g_prefix.size() && solve({k}, false, nullptr) == UNSAT) throw PathAbort{1, "assume"};
    addPC(k); if (hp) polymask[pkey(p)] = known & mask; else termmask[d] = mask;
}
void sym_assume_eq(double a, double b) { assumeMask(a, b, 2); }
void sym_assume_ne(double a, double b) { assumeMask(a, b, 5); }
void sym_assume_le(double a, double b) { assumeMask(a, b, 3); }
void sym_assume_lt(double a, double b) { assumeMask(a, b, 1); }
void sym_assume(bool c) { if (!c) throw PathAbort{1, "assume"}; }
void sym_note(const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); emitLine(std::string("NOTE ") + b); }
bool sym_isconst(double v) { return isplain(v); }
bool sym_same(double a, double b) { return bits(a) == bits(b); }
void sym_reach(const char *l) { emitLine(std::string("REACH ") + l); }

static double evalnum(T t, std::unordered_map<T, double> &m)
{
    std::vector<T> st{t};
    while (!st.empty())
    {
        T u = st.back(); if (m.count(u)) { st.pop_back(); continue; }
        Node n = N[u]; if (n.op == CONST) { m[u] = cv(u).get_d(); continue; } if (n.op == VAR) { m[u] = 0; continue; }
        bool bin = (n.op == ADD || n.op == MUL || n.op == DIV || n.op == POW || n.op == UF);
        if (!m.count(n.a)) { st.push_back(n.a); continue; } if (bin && !m.count(n.b)) { st.push_back(n.b); continue; }
        double a = m[n.a], b = bin ? m[n.b] : 0, r = 0;
        switch (n.op) { case ADD: r = a + b; break; case MUL: r = a * b; break; case DIV: r = a / b; break; case SQRT: r = std::sqrt(a); break; case EXP: r = std::exp(a); break; case LOG: r = std::log(a); break; case SIN: r = std::sin(a); break; case COS: r = std::cos(a); break; case ATAN: r = std::atan(a); break; case ACOS: r = std::acos(a); break; case ASIN: r = std::asin(a); break; case POW: r = std::pow(a, b); break; default: r = QNAN; }
        m[u] = r; st.pop_back();
    }
    return m[t];
}
static double evalpoly(const Poly &p, std::unordered_map<T, double> &m, std::map<int, double> &nm);
static double evalnv(int i, std::unordered_map<T, double> &m, std::map<int, double> &nm)
{
    auto it = nm.find(i); if (it != nm.end()) return it->second; double r; NVar &n = NVs[i];
    if (n.kind == 0) r = evalnum(n.term, m); else if (n.kind == 1) r = std::sqrt(evalpoly(n.P, m, nm));
    else { Node nd = N[n.term]; double a = nd.op == POW || nd.op == UF ? 0 : evalnum(nd.a, m);
        if (nd.op == SIN || nd.op == COS) r = n.kind == 2 ? std::sin(std::fabs(a)) : std::cos(a); else r = evalnum(n.term, m); }
    nm[i] = r; return r;
}
static double evalpoly(const Poly &p, std::unordered_map<T, double> &m, std::map<int, double> &nm)
{
    double s = 0; for (auto &x : p.t) { double t = x.second.get_d(); for (int i = 0; i < NV; i++) for (int k = 0; k < x.first.e[i]; k++) t *= evalnv(i, m, nm); s += t; } return s;
}
static std::mt19937 g_rng(12345);
static bool maskok(double v, int mask, double eps) { if (std::isnan(v)) return false; switch (mask) { case 1: return v < -eps; case 2: return std::fabs(v) <= 1e-12; case 4: return v > eps; case 3: return v <= 0; case 6: return v >= 0; case 5: return std::fabs(v) > eps; default: return true; } }
// numeric search for a point satisfying the path condition with sign(viol) in vmask robustly: fills model
static bool sampleModel(const Constraint *viol, double delta, Model &mo, int tries)
{
    for (int a = 0; a < tries; a++)
    {
        std::unordered_map<T, double> m; std::map<int, double> nm;
        static const double nice[] = {-2, -1.5, -1, -0.75, -0.5, 0, 0.25, 0.5, 1, 1.25, 1.5, 2, 3, -3};
        for (size_t i = 0; i < N.size() && i < N.size(); i++) {}
        for (auto &in : inputs)
        {
            VarInfo &vi = V[N[in.second].aux]; double v;
            int mode = g_rng() % 4;
            if (mode == 0) v = nice[g_rng() % 14]; else v = std::ldexp((double)((int)(g_rng() % 4097) - 2048), -10);
            if (vi.haslo && vi.hashi) v = vi.lo + (vi.hi - vi.lo) * ((g_rng() % 1025) / 1024.0);
            else { if (vi.haslo && v < vi.lo) v = vi.lo + std::fabs(v); if (vi.hashi && v > vi.hi) v = vi.hi - std::fabs(v); if (vi.nonneg) v = std::fabs(v); if (vi.pos && v == 0) v = 0.5; }
            if (vi.inf) v = 0;
            m[in.second] = v;
        }
        for (size_t i = 0; i < V.size(); i++) {}
        bool ok = true;
        for (auto &k : PC) { double v = k.haspoly ? evalpoly(k.p, m, nm) : evalnum(k.term, m); if (!maskok(v, k.mask, 1e-6)) { ok = false; break; } }
        if (!ok) continue;
        if (viol) { double v = viol->haspoly ? evalpoly(viol->p, m, nm) : evalnum(viol->term, m); if (!maskok(v, viol->mask, delta)) continue; }
        mo.valid = true; for (auto &in : inputs) mo.v[in.second] = m[in.second];
        return true;
    }
    return false;
}
static double randInput(T t)
{
    static const double nice[] = {-2, -1.5, -1, -0.75, -0.5, 0, 0.25, 0.5, 1, 1.25, 1.5, 2, 3, -3};
    VarInfo &vi = V[N[t].aux]; double v; if (vi.inf) return 0;
    if (g_rng() % 4 == 0) v = nice[g_rng() % 14]; else v = std::ldexp((double)((int)(g_rng() % 4097) - 2048), -10);
    if (vi.haslo && vi.hashi) v = vi.lo + (vi.hi - vi.lo) * ((g_rng() % 1025) / 1024.0);
    else { if (vi.haslo && v < vi.lo) v = vi.lo + std::fabs(v); if (vi.hashi && v > vi.hi) v = vi.hi - std::fabs(v); if (vi.nonneg) v = std::fabs(v); if (vi.pos && v == 0) v = 0.5; }
    return v;
}
// pool of numeric points satisfying the current path condition with margin: cheap satisfiability witnesses for decisions
struct PoolPt { std::unordered_map<T, double> m; size_t checked; };
static std::vector<PoolPt> g_pool; static size_t g_poolpc = 0; static int g_poolbarren = 0;
static bool poolCheck(PoolPt &p)
{
    for (size_t i = 0; i < V.size(); i++) {}
    for (auto &in : inputs) if (!p.m.count(in.second)) p.m[in.second] = randInput(in.second);
    std::map<int, double> nm;
    for (; p.checked < PC.size(); p.checked++) { auto &k = PC[p.checked]; double v = k.haspoly ? evalpoly(k.p, p.m, nm) : evalnum(k.term, p.m); if (!maskok(v, k.mask, 1e-6)) return false; }
    return true;
}
static void poolDrop(std::unordered_map<T, double> &m)   // keep only input values (term values memoised by evalnum stay valid, they are deterministic)
{ (void)m; }
static bool poolSat(const Constraint &k)
{
    if (k.mask == 2) return false;
    if (g_poolpc != PC.size()) { g_poolpc = PC.size(); g_poolbarren = 0; }
    for (size_t i = 0; i < g_pool.size();) { if (!poolCheck(g_pool[i])) { g_pool[i] = g_pool.back(); g_pool.pop_back(); } else i++; }
    auto test = [&](PoolPt &p) { std::map<int, double> nm; double v = k.haspoly ? evalpoly(k.p, p.m, nm) : evalnum(k.term, p.m); return maskok(v, k.mask == 3 ? 1 : k.mask == 6 ? 4 : k.mask, 1e-6); };
    for (auto &p : g_pool) if (test(p)) return true;
    for (int a = 0; a < 24 && g_poolbarren < 60; a++)
    {
        PoolPt p; p.checked = 0; if (!poolCheck(p)) { g_poolbarren++; continue; }
        bool hit = test(p); if (g_pool.size() < 16) g_pool.push_back(p); else if (hit) g_pool[g_rng() % 16] = p;
        if (hit) return true;
    }
    return false;
}
static std::string g_case;
static void emitCex(const char *kind, const std::string &label, const Model &mo)
{
    std::ostringstream o; o << "CEX " << kind << "\t" << label << "\t";
    for (auto &c : choices) o << c.first << "=c" << c.second << " ";
    for (auto &in : inputs) { auto it = mo.v.find(in.second); double v = it == mo.v.end() ? (V[N[in.second].aux].pos ? 1.0 : 0.0) : it->second; char b[64]; snprintf(b, sizeof b, "%.17g", v); if (!V[N[in.second].aux].inf) o << in.first << "=" << b << " "; }
    emitLine(o.str());
}
static std::string vlabel(const char *fmt, va_list ap) { char b[400]; vsnprintf(b, sizeof b, fmt, ap); return b; }
static std::map<std::string, int> g_labelfails;
// violation: sign(d) in vmask possible?
static void searchAndReport(const char *kind, const std::string &label, T d, bool hp, const Poly &p, int vmask)
{
    if (g_labelfails[label.substr(0, label.find('['))]++ > 3) return;   // enough candidates for this label on this path
    int emitted = 0;
    Constraint viol{vmask, hp, p, d};
    // robust violation first
    for (double delta : {0.05, 1e-3})
    {
        for (int k = 0; k < 2; k++) { Model mo; if (sampleModel(&viol, delta, mo, 300)) { emitCex(kind, label, mo); emitted++; } }
        if (emitted) break;
    }
    // solver models: |d| >= delta
    if (emitted < 2)
    {
        for (double delta : {0.0625, 0.0})
        {
            for (int side : {4, 1})
            {
                if (!(vmask & side) && vmask != 2) continue;
                Constraint v2 = viol; v2.mask = vmask == 2 ? 2 : side;
                if (delta > 0 && vmask != 2)
                { if (hp) { v2.p = padd(p, pconst(mpq_class(side == 4 ? -delta : delta))); } else { v2.term = tadd(d, mkconst(mpq_class(side == 4 ? -delta : delta))); } v2.mask = side == 4 ? 6 : 3; }
                Model mo; std::vector<Constraint> ex{v2};
                Res r = solve(ex, true, &mo, g_query_timeout, false);
                if (r == SAT) { emitCex(kind, label, mo); emitted++; }
            }
            if (emitted >= 2) break;
        }
    }
    if (!emitted)
    {   // fix most inputs to small rationals, let the solver complete the rest
        for (int a = 0; a < 6 && !emitted; a++)
        {
            std::vector<std::pair<T, mpq_class>> fix; size_t keep = 2 + a % 3, i = 0; std::vector<T> vs; for (auto &in : inputs) vs.push_back(in.second);
            std::shuffle(vs.begin(), vs.end(), g_rng);
            for (T t : vs) { if (i++ < keep) continue; VarInfo &vi = V[N[t].aux]; mpq_class v((int)(g_rng() % 9) - 4, 2); v.canonicalize(); if (vi.nonneg) v = abs(v); if (vi.pos && v == 0) v = 1; if (vi.haslo && v < vi.lo) v = mpq_class(vi.lo); if (vi.hashi && v > vi.hi) v = mpq_class(vi.hi); fix.push_back({t, v}); }
            Model mo; if (solve({viol}, true, &mo, 2.0, false, &fix) == SAT) { for (auto &f : fix) mo.v[f.first] = f.second.get_d(); emitCex(kind, label, mo); emitted++; }
        }
    }
    if (!emitted) emitLine("INCONCLUSIVE\t" + label);
}
static void checkSign(double a, double b, int okmask, const std::string &label)
{
    ST.asserts++;
    bool na = isplain(a) && !std::isfinite(a), nb = isplain(b) && !std::isfinite(b);
    if (na || nb)
    {
        bool ok = false; if (na && nb) { int s = std::isnan(a) || std::isnan(b) ? 0 : a < b ? 1 : a == b ? 2 : 4; ok = (s & okmask) != 0; }
        else if (na && !std::isnan(a)) ok = ((a > 0 ? 4 : 1) & okmask) != 0; else if (nb && !std::isnan(b)) ok = ((b > 0 ? 1 : 4) & okmask) != 0;
        if (!ok) { Model mo; if (!sampleModel(nullptr, 0, mo, 200)) solve({}, true, &mo, g_query_timeout, false); if (mo.valid || inputs.empty()) emitCex("nonfinite", label, mo); else emitLine("INCONCLUSIVE\t" + label); }
        else { ST.syn++; }
        return;
    }
    T d = tsub(fromd(a), fromd(b)); if (g_hasinf) d = subst0(d);
    if (isc(d)) { int s = sgn(cv(d)); bool ok = ((s < 0 ? 1 : s == 0 ? 2 : 4) & okmask) != 0; if (ok) { ST.syn++; return; } Model mo; if (!sampleModel(nullptr, 0, mo, 200)) solve({}, true, &mo, g_query_timeout, false); if (mo.valid || inputs.empty()) emitCex("const", label, mo); else emitLine("INCONCLUSIVE\t" + label); return; }
    double t0 = now(); Poly p; bool hp = false; 
    hp = signPoly(d, p, okmask == 2 || okmask == 5); ST.algtime += now() - t0;
    if (hp && p.zero()) { if (okmask & 2) { ST.alg++; return; } }
    int vm = 7 & ~okmask;
    if (hp && !p.zero()) 
    {
        int known = 7; int s = psign_syntactic(p); if (s == 2) known &= 4; if (s == 1) known &= 6; if (s == -1) known &= 3; if (s == -2) known &= 1;
        Poly q = p; bool fl = false; if (q.t[0].second < 0) { q = pscale(q, -1); fl = true; } auto it = polymask.find(pkey(q)); if (it != polymask.end()) known &= fl ? swapmask(it->second) : it->second;
        if ((known & ~okmask) == 0) { ST.alg++; return; }
    }
    if (okmask == 2 && hp)
    {   // quick refutation of an equality: numeric witness, then solver
        Constraint viol{5, true, p, d}; Model mo; if (sampleModel(&viol, 1e-3, mo, 60)) { searchAndReport("eq", label, d, hp, p, 5); return; }
    }
    Constraint viol{vm, hp, p, d}; Res r = solve({viol}, false, nullptr);
    if (r == UNSAT) return;
    if (r == UNKNOWN && hp) { Constraint v2{vm, false, Poly(), d}; if (solve({v2}, false, nullptr) == UNSAT) return; }
    searchAndReport(r == SAT ? "sat" : "unknown", label, d, hp, p, vm);
}
#define LAB std::string label; { va_list ap; va_start(ap, fmt); label = vlabel(fmt, ap); va_end(ap); }
void sym_eq(double a, double b, const char *fmt, ...) { LAB checkSign(a, b, 2, label); }
void sym_le(double a, double b, const char *fmt, ...) { LAB checkSign(a, b, 3, label); }
void sym_lt(double a, double b, const char *fmt, ...) { LAB checkSign(a, b, 1, label); }
void sym_ne(double a, double b, const char *fmt, ...) { LAB checkSign(a, b, 5, label); }
static void failNow(const std::string &label)
{
    Model mo; bool any = false;
    for (int k = 0; k < 2; k++) { Model m1; if (sampleModel(nullptr, 0, m1, 400)) { emitCex("bool", label, m1); any = true; } }
    Res r = solve({}, true, &mo, g_query_timeout, false); if (r == SAT) { emitCex("bool", label, mo); any = true; }
    else if (r == UNSAT) { emitLine("INFEASIBLE\t" + label); return; }
    if (!any) emitLine("INCONCLUSIVE\t" + label);
}
void sym_true(bool c, const char *fmt, ...) { LAB ST.asserts++; if (c) { ST.syn++; return; } failNow(label); }
void sym_fail(const char *fmt, ...) { LAB ST.asserts++; failNow(label); }
std::vector<double> sym_ddt(const std::function<std::vector<double>(double)> &g)
{
    VarInfo vi{uniq("_t"), false, false, false, false, 0, 0, true}; T t = newvar(vi);
    bool old = g_hasinf; g_hasinf = true; substmemo.clear();
    std::vector<double> v = g(tod(t)), r;
    for (double d : v)
    {
        if (isplain(d) && !std::isfinite(d)) { r.push_back(QNAN); continue; }
        T u = fromd(d); r.push_back(tod(subst0(deriv(u, t))));
    }
    (void)old;   // stays on: terms containing t may survive in caches
    return r;
}
// ------------------------------------------------------------------------------------------------ explorer
extern "C" bool sym_isplain(double v) { return isplain(v); }
extern "C" bool sym_prov_zero(double v)
{
    if (isplain(v)) return v == 0; T d = fromd(v); if (isc(d)) return cv(d) == 0;
    if (g_hasinf) { RF r; return trynf(d, r) && r.num.zero(); }
    Poly p; if (!signPoly(d, p, true)) return false; if (p.zero()) return true;
    if (p.t[0].second < 0) p = pscale(p, -1); auto it = polymask.find(pkey(p)); return it != polymask.end() && it->second == 2;
}
extern "C" void sym_unsupported(const char *w) { throw PathAbort{2, w}; }
extern "C" void sym_xerbla(const char *w, int k) { sym_fail("xerbla:%s argument %d", w, k); throw PathAbort{0, ""}; }
struct Case { std::string name; std::function<void()> fn; int tier; };
static std::vector<Case> &cases() { static std::vector<Case> c; return c; }
SymCaseReg::SymCaseReg(const char *n, void (*fn)(), int tier) { cases().push_back({n, fn, tier}); }
void sym_register_case(const std::string &n, std::function<void()> fn, int tier) { cases().push_back({n, fn, tier}); }
extern void sym_harness_init() __attribute__((weak));
static void (*volatile g_dummy)() = nullptr;
static void onCrash(int sig)
{
    // async-signal-unsafe but we are about to die; try to report a model of the path
    signal(sig, SIG_DFL); static int once = 0; if (once++) _exit(99);
    alarm(20);
    try { Model mo; if (!sampleModel(nullptr, 0, mo, 300)) solve({}, true, &mo, 3, false); if (mo.valid || inputs.empty()) emitCex("crash", sig == SIGABRT ? "abort" : "crash", mo); else emitLine("INCONCLUSIVE\tcrash"); } catch (...) {}
    emitLine("END crash"); _exit(99);
}
static void onTime(int)
{
    // time is up for this path: a point of the part explored
    signal(SIGALRM, SIG_DFL); alarm(3); static int once = 0; if (once++) _exit(98);
    try { Model mo; if (sampleModel(nullptr, 0, mo, 200)) emitCex("WIT", "u", mo); } catch (...) {}
    _exit(98);
}
static int runChild(const Case &c, const std::vector<uint8_t> &prefix, int fd)
{
    g_outfd = fd; g_prefix = prefix; g_case = c.name; initterms();
    int dn = open("/dev/null", O_WRONLY); fflush(stdout); dup2(dn, 1);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)3000 << 20; setrlimit(RLIMIT_DATA, &rl);
    signal(SIGSEGV, onCrash); signal(SIGABRT, onCrash); signal(SIGFPE, onCrash); signal(SIGBUS, onCrash); signal(SIGUSR1, onTime);
    std::string end = "END ok";
    try { c.fn(); }
    catch (PathAbort &p) { if (p.kind == 1) end = "END assumed " + p.why; else if (p.kind == 2) end = "END unsupported " + p.why; else end = "END ok"; }
    catch (NFOverflow &) { end = "END unsupported normal form overflow"; }
    catch (std::bad_alloc &) { end = "END unsupported out of memory"; }
    catch (z3::exception &e) { end = std::string("END unsupported z3 ") + e.msg(); }
    catch (const char *s) { Model mo; end = std::string("END exception ") + s; }
    catch (std::exception &e) { end = std::string("END exception ") + e.what(); }
    std::ostringstream o; o << "STAT " << ST.q_z3 << " " << ST.q_cvc5 << " " << ST.unsat << " " << ST.sat << " " << ST.unknown << " " << ST.alg << " " << ST.asserts << " " << ST.syn << " " << ST.z3time << " " << ST.cvctime << " " << ST.algtime << " " << ST.decisions << " " << g_uninit;
    emitLine(o.str());
    if (end == "END ok" && ST.asserts > 0)
    {   // a concrete point of this path, for the comparison with the real libraries
        unsigned hsh = 2166136261u; for (uint8_t b : g_taken) hsh = (hsh ^ b) * 16777619u;
        if (prefix.empty() || hsh % 7 == 0) try { Model mo; if (inputs.empty()) mo.valid = true; else sampleModel(nullptr, 0, mo, 60); if (mo.valid) emitCex("WIT", "-", mo); } catch (...) {}
    }
    if (end.compare(0, 15, "END unsupported") == 0 || end.compare(0, 13, "END exception") == 0)
    {   // the path leaves what can be encoded: a point of the part explored, to be run on the real code
        try { Model mo; if (inputs.empty()) mo.valid = true; else if (!sampleModel(nullptr, 0, mo, 200)) solve({}, true, &mo, 2, false); if (mo.valid) emitCex("WIT", "u", mo); } catch (...) {}
    }
    if (g_taken.size() > 0 && getenv("SYM_TRACE")) emitLine("NOTE path " + prefixStr(g_taken));
    emitLine(end); return 0;
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { o += ' '; } else o += c; } return o; }
struct CaseStat { long paths = 0, ok = 0, assumed = 0, unsupported = 0, crashed = 0, timeout = 0, pending = 0, exc = 0; Stats st; long uninit = 0; std::map<std::string, int> reach, unsup, inconcl, infeas; std::vector<std::string> cex, wit; int nwit[2] = {0, 0}; std::map<std::string, int> cexcount; std::vector<std::string> notes; double wall = 0; long maxdepth = 0; };
int main(int argc, char **argv)
{
    std::string only, out = "sym.json"; int jobs = 8; double tlimit = 600; long maxpaths = 200000; int tier = 0; std::string onepath; bool alltiers = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--case") only = nx(); else if (a == "--out") out = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--time") tlimit = atof(nx().c_str());
        else if (a == "--maxpaths") maxpaths = atol(nx().c_str()); else if (a == "--tier") tier = atoi(nx().c_str()); else if (a == "--qt") g_query_timeout = atof(nx().c_str());
        else if (a == "--polylimit") g_polylimit = atol(nx().c_str()); else if (a == "--pathtime") g_path_timeout = atof(nx().c_str()); else if (a == "-v") g_verbose++; else if (a == "--path") onepath = nx(); else if (a == "--list") { if (sym_harness_init) sym_harness_init(); for (auto &c : cases()) printf("%s %d\n", c.name.c_str(), c.tier); return 0; }
        else if (a == "--dt") g_decide_timeout = atof(nx().c_str()); else if (a == "--nocvc5") g_use_cvc5 = false; else if (a == "--alltiers") alltiers = true;
    }
    if (sym_harness_init) sym_harness_init();
    warmZ3();
    g_cover = (unsigned char *)mmap(nullptr, g_ncover, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!onepath.empty())
    {
        std::vector<uint8_t> p; if (onepath != "-") for (size_t i = 0; i + 1 < onepath.size(); i += 2) p.push_back(strtol(onepath.substr(i, 2).c_str(), 0, 16));
        for (auto &c : cases()) if (c.name == only) { runChild(c, p, -1); } return 0;
    }
    struct Job { int c; std::vector<uint8_t> p; }; 
    struct Run { pid_t pid; int fd; int c; std::string buf; double t0; bool ended; double asked = 0; std::string endline; std::vector<uint8_t> p; };
    std::vector<CaseStat> cs(cases().size()); std::vector<std::deque<Job>> q(cases().size()); std::vector<Run> runs; std::vector<int> active;
    for (size_t i = 0; i < cases().size(); i++)
    {
        if (!only.empty()) { bool hit = false; std::stringstream ss(only); std::string x; while (std::getline(ss, x, ',')) { bool neg = x[0] == '!'; if (fnmatch(x.c_str() + neg, cases()[i].name.c_str(), 0) == 0) hit = !neg; } if (!hit) continue; }
        if (!alltiers && cases()[i].tier > tier) continue;
        q[i].push_back({(int)i, {}}); active.push_back(i);
    }
    double t0 = now(); size_t rr = 0; std::vector<double> started(cases().size(), 0), used(cases().size(), 0);
    bool timedout = false;
    while (true)
    {
        if (now() - t0 > tlimit) timedout = true;
        while ((int)runs.size() < jobs && !timedout)
        {
            // the case that has used the least time so far
            int pick = -1; double best = 0; std::vector<double> load(used); for (auto &r : runs) load[r.c] += now() - r.t0 + .02;
            for (size_t k = 0; k < active.size(); k++) { int i = active[(rr + k) % active.size()]; if (!q[i].empty() && cs[i].paths < maxpaths && (pick < 0 || load[i] < best - 1e-9)) { pick = i; best = load[i]; } }
            rr++;
            if (pick < 0) break;
            Job j = q[pick].back(); q[pick].pop_back();   // depth first
            int pf[2]; if (pipe(pf)) return 3;
            if (!started[pick]) started[pick] = now();
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) { close(pf[0]); for (auto &r : runs) close(r.fd); runChild(cases()[pick], j.p, pf[1]); _exit(0); }
            close(pf[1]); fcntl(pf[0], F_SETFL, O_NONBLOCK); runs.push_back({pid, pf[0], pick, "", now(), false, 0, "", j.p}); cs[pick].paths++; cs[pick].maxdepth = std::max(cs[pick].maxdepth, (long)j.p.size());
        }
        if (runs.empty()) break;
        std::vector<struct pollfd> pfd; for (auto &r : runs) pfd.push_back({r.fd, POLLIN, 0});
        poll(pfd.data(), pfd.size(), 200);
        for (size_t k = 0; k < runs.size();)
        {
            Run &r = runs[k]; bool eof = false; char buf[65536];
            while (true) { ssize_t n = read(r.fd, buf, sizeof buf); if (n > 0) r.buf.append(buf, n); else { if (n == 0) eof = true; break; } }
            bool kill9 = false;
            if (!eof && !r.asked && (now() - r.t0 > g_path_timeout || now() - t0 > tlimit + 5)) { r.asked = now(); kill(r.pid, SIGUSR1); }
            if (eof && r.asked) kill9 = true;
            if (!eof && r.asked && now() - r.asked > 4) { kill(r.pid, SIGKILL); kill9 = true; usleep(2000); while (true) { ssize_t n = read(r.fd, buf, sizeof buf); if (n > 0) r.buf.append(buf, n); else break; } eof = true; }
            if (eof)
            {
                int st; waitpid(r.pid, &st, 0); close(r.fd); CaseStat &c = cs[r.c];
                std::stringstream ss(r.buf); std::string line; bool ended = false;
                while (std::getline(ss, line))
                {
                    if (line.compare(0, 5, "FORK ") == 0) { std::vector<uint8_t> p; std::string h = line.substr(5); if (h != "-") for (size_t i = 0; i + 1 < h.size(); i += 2) p.push_back(strtol(h.substr(i, 2).c_str(), 0, 16)); q[r.c].push_back({r.c, p}); }
                    else if (line.compare(0, 4, "CEX ") == 0) { if (line.compare(4, 4, "WIT\t") == 0) { bool u = line[8] == 'u'; if (c.nwit[u]++ < (u ? 4 : 3)) c.wit.push_back(line.substr(4)); continue; } size_t a = line.find('\t'), b = line.find('\t', a + 1); std::string lab = line.substr(a + 1, b - a - 1); std::string base = lab.substr(0, lab.find('[')); if (c.cexcount[base]++ < 12) c.cex.push_back(line.substr(4)); }
                    else if (line.compare(0, 13, "INCONCLUSIVE\t") == 0) c.inconcl[line.substr(13)]++;
                    else if (line.compare(0, 11, "INFEASIBLE\t") == 0) c.infeas[line.substr(11)]++;
                    else if (line.compare(0, 6, "REACH ") == 0) c.reach[line.substr(6)]++;
                    else if (line.compare(0, 5, "NOTE ") == 0) { if (c.notes.size() < 60) c.notes.push_back(line.substr(5)); }
                    else if (line.compare(0, 5, "STAT ") == 0) { std::stringstream t(line.substr(5)); Stats s; long un; t >> s.q_z3 >> s.q_cvc5 >> s.unsat >> s.sat >> s.unknown >> s.alg >> s.asserts >> s.syn >> s.z3time >> s.cvctime >> s.algtime >> s.decisions >> un; Stats &d = c.st; d.q_z3 += s.q_z3; d.q_cvc5 += s.q_cvc5; d.unsat += s.unsat; d.sat += s.sat; d.unknown += s.unknown; d.alg += s.alg; d.asserts += s.asserts; d.syn += s.syn; d.z3time += s.z3time; d.cvctime += s.cvctime; d.algtime += s.algtime; d.decisions += s.decisions; c.uninit += un; }
                    else if (line.compare(0, 4, "END ") == 0) { ended = true; std::string e = line.substr(4); if (e.compare(0, 2, "ok") == 0) c.ok++; else if (e.compare(0, 7, "assumed") == 0) { c.assumed++; if (e.find("degenerate") != std::string::npos) c.unsup[e]++; } else if (e.compare(0, 5, "crash") == 0) c.crashed++; else if (e.compare(0, 9, "exception") == 0) { c.exc++; c.unsup[e]++; } else { c.unsupported++; c.unsup[e]++; } }
                }
                if (!ended) { if (kill9) { c.timeout++; c.unsup["path time limit " + prefixStr(r.p)]++; } else { c.crashed++; c.unsup["child died status " + std::to_string(st)]++; } }
                c.wall = now() - started[r.c]; used[r.c] += now() - r.t0;
                runs.erase(runs.begin() + k); continue;
            }
            k++;
        }
    }
    std::ofstream f(out); f << "{\n \"wall\": " << now() - t0 << ", \"timed_out\": " << (timedout ? "true" : "false") << ",\n \"covered\": ["; bool first = true;
    for (size_t i = 0; i < g_ncover; i++) if (g_cover[i]) { f << (first ? "" : ",") << i; first = false; } f << "],\n \"cases\": [\n"; first = true;
    for (int i : active)
    {
        CaseStat &c = cs[i]; c.pending = q[i].size(); Stats &s = c.st;
        auto jm = [&](const std::map<std::string, int> &m) { std::string o = "{"; bool fi = true; for (auto &kv : m) { o += (fi ? "\"" : ",\"") + jesc(kv.first) + "\":" + std::to_string(kv.second); fi = false; } return o + "}"; };
        f << (first ? "" : ",\n") << "  {\"case\":\"" << cases()[i].name << "\",\"tier\":" << cases()[i].tier << ",\"paths\":" << c.paths << ",\"ok\":" << c.ok << ",\"assumed\":" << c.assumed << ",\"unsupported\":" << c.unsupported << ",\"exceptions\":" << c.exc << ",\"crashed\":" << c.crashed << ",\"timeout\":" << c.timeout << ",\"pending\":" << c.pending << ",\"maxdepth\":" << c.maxdepth
          << ",\"q_z3\":" << s.q_z3 << ",\"q_cvc5\":" << s.q_cvc5 << ",\"unsat\":" << s.unsat << ",\"sat\":" << s.sat << ",\"unknown\":" << s.unknown << ",\"alg\":" << s.alg << ",\"asserts\":" << s.asserts << ",\"syn\":" << s.syn << ",\"z3time\":" << s.z3time << ",\"cvctime\":" << s.cvctime << ",\"algtime\":" << s.algtime << ",\"decisions\":" << s.decisions << ",\"uninit\":" << c.uninit << ",\"wall\":" << c.wall
          << ",\"reach\":" << jm(c.reach) << ",\"unsup\":" << jm(c.unsup) << ",\"inconclusive\":" << jm(c.inconcl) << ",\"infeasible\":" << jm(c.infeas) << ",\"cex\":[";
        bool f2 = true; for (auto &x : c.cex) { std::string y; for (char ch : x) y += ch == '\t' ? '\x01' : ch; std::string e; for (char ch : y) { if (ch == '\x01') e += "\\t"; else if (ch == '"' || ch == '\\') { e += '\\'; e += ch; } else e += ch; } f << (f2 ? "\"" : ",\"") << e << "\""; f2 = false; }
        f << "],\"wit\":["; f2 = true; for (auto &x : c.wit) { std::string e; for (char ch : x) { if (ch == '\t') e += "\\t"; else if (ch == '"' || ch == '\\') { e += '\\'; e += ch; } else e += ch; } f << (f2 ? "\"" : ",\"") << e << "\""; f2 = false; }
        f << "],\"notes\":["; f2 = true; for (auto &x : c.notes) { f << (f2 ? "\"" : ",\"") << jesc(x) << "\""; f2 = false; } f << "]}"; first = false;
    }
    f << "\n ]\n}\n"; f.close();
    return 0;
}
