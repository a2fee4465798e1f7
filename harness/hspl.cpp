// Cubic splines: through the data, twice continuously differentiable, with the documented end conditions
#include "prelude.h"
#include "sym.h"
#include "ref.h"
#include "Others/Spline.h"
using namespace ROPTLIB;
namespace {
struct Sp { int n; bool per, uni; std::vector<double> X, Y, c; double h; };
Sp make(int n, bool per, bool uni, int symx)    // symx: 0 fixed knots, 1 symbolic spacing / one symbolic gap
{
    Sp s; s.n = n; s.per = per; s.uni = uni; s.h = 1; static const double g[] = {1, .5, 2, 1.5, .25};
    if (uni) { s.h = symx ? sym_real("h", 1e-6, 1e6) : .5; for (int i = 0; i < n; i++) s.X.push_back(i * s.h); }
    else { double x = symx == 2 ? -1.5 : 0; for (int i = 0; i < n; i++) { s.X.push_back(x); x += symx == 1 && i == 1 ? sym_real("gap", 1e-6, 1e6) : g[(i + symx) % 5]; } }
    for (int i = 0; i < n; i++) s.Y.push_back(per && i == n - 1 ? s.Y[0] : sym_real(sym_fmt("y%d", i).c_str()));
    s.c.assign(4 * (n - 1), 7.);
    std::vector<double> X = s.X, Y = s.Y; int r = uni ? (per ? Spline::SplineUniformPeriodic(Y.data(), n, s.h, s.c.data()) : Spline::SplineUniformSlopes(Y.data(), n, s.h, s.c.data())) : per ? Spline::SplinePeriodic(X.data(), Y.data(), n, s.c.data()) : Spline::SplineSlopes(X.data(), Y.data(), n, s.c.data());
    sym_true(r == 1, "solved"); for (int i = 0; i < n; i++) { sym_eq(X[i], s.X[i], "knots_unchanged"); sym_eq(Y[i], s.Y[i], "values_unchanged"); }
    return s;
}
double pv(const Sp &s, int i, double t, int d)
{
    int m = s.n - 1; double a = s.c[i], b = s.c[m + i], c = s.c[2 * m + i], e = s.c[3 * m + i];
    return d == 0 ? ((a * t + b) * t + c) * t + e : d == 1 ? (3 * a * t + 2 * b) * t + c : 6 * a * t + 2 * b;
}
void smooth(int n, bool per, bool uni, int symx)
{
    Sp s = make(n, per, uni, symx); int m = n - 1;
    for (int i = 0; i < m; i++) { double g = s.X[i + 1] - s.X[i]; sym_eq(pv(s, i, 0, 0), s.Y[i], "left_value"); sym_eq(pv(s, i, g, 0), s.Y[i + 1], "right_value"); if (i + 1 < m || per) { int j = (i + 1) % m; sym_eq(pv(s, i, g, 1), pv(s, j, 0, 1), "slope_continuous"); sym_eq(pv(s, i, g, 2), pv(s, j, 0, 2), "curvature_continuous"); } }
    if (!per) { sym_eq(pv(s, 0, 0, 1), (s.Y[1] - s.Y[0]) / (s.X[1] - s.X[0]), "start_slope"); sym_eq(pv(s, m - 1, s.X[m] - s.X[m - 1], 1), (s.Y[m] - s.Y[m - 1]) / (s.X[m] - s.X[m - 1]), "end_slope"); }
    sym_reach("end");
}
double val(const Sp &s, const std::vector<double> &dc, double t, int d)
{
    if (s.uni) return d == 0 ? Spline::ValSplineUniform(s.c.data(), s.n, s.h, t) : d == 1 ? Spline::ValFirstDeriUniform(dc.data(), s.n, s.h, t) : Spline::ValSecondDeriUniform(dc.data(), s.n, s.h, t);
    return d == 0 ? Spline::ValSpline(s.c.data(), s.X.data(), s.n, t) : d == 1 ? Spline::ValFirstDeri(dc.data(), s.X.data(), s.n, t) : Spline::ValSecondDeri(dc.data(), s.X.data(), s.n, t);
}
void value(int n, bool uni, int symx)    // evaluation on arbitrary piecewise cubics
{
    Sp s; s.n = n; s.uni = uni; s.h = .5; static const double g[] = {1, .5, 2, 1.5, .25}; double x = symx ? -1.5 : 0; int m = n - 1;
    for (int i = 0; i < n; i++) { s.X.push_back(uni ? i * s.h : x); x += g[i % 5]; } for (int i = 0; i < 4 * m; i++) s.c.push_back(sym_real(sym_fmt("c%d", i).c_str()));
    std::vector<double> c0 = s.c, d1(3 * m, 7.), d2(2 * m, 7.); Spline::FirstDeri(s.c.data(), n, d1.data()); Spline::SecondDeri(s.c.data(), n, d2.data());
    int i = sym_choice("piece", m); double th = sym_real("theta", 0, .99), gap = s.X[i + 1] - s.X[i], t = s.X[i] + th * gap;
    for (int d = 0; d < 3; d++) sym_eq(val(s, d == 1 ? d1 : d2, t, d), pv(s, i, th * gap, d), d == 0 ? "value" : d == 1 ? "first_derivative" : "second_derivative");
    for (int d = 0; d < 3; d++) sym_eq(val(s, d == 1 ? d1 : d2, s.X[m], d), pv(s, m - 1, s.X[m] - s.X[m - 1], d), d == 0 ? "value_at_end" : d == 1 ? "first_derivative_at_end" : "second_derivative_at_end");
    for (size_t k = 0; k < c0.size(); k++) sym_eq(s.c[k], c0[k], "coefficients_unchanged"); sym_reach("end");
}
struct Init
{
    Init()
    {
        for (int n = 3; n <= 6; n++) for (int per = 0; per < 2; per++) for (int uni = 0; uni < 2; uni++) for (int sx = 0; sx < (uni ? 2 : 3); sx++) if (!per || n > 3)
            sym_register_case(sym_fmt("spl_%s%s%d_%d", per ? "periodic" : "slopes", uni ? "u" : "", n, sx), [=]() { smooth(n, per, uni, sx); }, n == 6);
        for (int n = 2; n <= 4; n++) for (int uni = 0; uni < 2; uni++) for (int sx = 0; sx < (uni ? 1 : 2); sx++) sym_register_case(sym_fmt("splval_%s%d_%d", uni ? "u" : "", n, sx), [=]() { value(n, uni, sx); });
    }
} init;
}
