// C27: the auxiliary functions against long double / binary128 evaluations of their definitions: every table cell, both sides of every seam
// and random arguments. A function the tree no longer has (have_k == 0) is left out; what it fed is still judged by C02, C03, C07, C08.
#include "common.hpp"
#include "gen.hpp"
#include "mon.hpp"
extern "C" { __float128 erfq(__float128), cosq(__float128), powq(__float128, __float128), fabsq(__float128); }
#define M_PIq 3.141592653589793238462643383279502884Q
typedef __float128 Q;
extern "C" {
extern const int have_1, have_2, have_3, have_4, have_5, have_6, have_7, have_8, have_9, have_10, have_11, have_12;
double p_boys(int, double); void p_boys_values(double, int, double *); void p_gfun(double, int, double *); double p_bessel(int, double); double p_sk(int, double); double p_dawson(double);
double p_fact(int); double p_fratio(int, int); double p_dfact(int); uint64_t p_binom(uint64_t, uint64_t); double p_rsh(int, int, const double *); void p_rsh_array(int, const double *, double *);
}
static const int NB = 24;      // highest order the integrals request, with margin

// F_n(x), n = 0..nmax, in binary128
static void boys_ref(Q x, int nmax, Q *F)
{
    if (x < 60) {      // all-positive series for the highest order, downward recursion
        Q e = expq(-x), t = 1 / (Q) (2 * nmax + 1), s = t;
        for (int k = 1; k < 400; k++) { t *= 2 * x / (2 * nmax + 2 * k + 1); s += t; if (t < s * 1e-33Q) break; }
        F[nmax] = e * s;
        for (int n = nmax - 1; n >= 0; n--) F[n] = (2 * x * F[n + 1] + e) / (2 * n + 1);
    } else {
        Q e = expq(-x); F[0] = 0.5Q * sqrtq(M_PIq / x) * erfq(sqrtq(x));
        for (int n = 0; n < nmax; n++) F[n + 1] = ((2 * n + 1) * F[n] - e) / (2 * x);
    }
}
// g_n(x) = int_0^1 (1-u^2)^n exp(-x (1-u^2)) du by Gauss-Legendre on panels adapted to the decay
static std::vector<std::pair<Q, Q>> glq;
static void gl_init()
{
    int n = 40;
    for (int i = 0; i < n; i++) {
        Q x = cosq(M_PIq * (i + 0.75Q) / (n + 0.5Q)), dp = 1;
        for (int it = 0; it < 60; it++) { Q p0 = 1, p1 = x; for (int k = 2; k <= n; k++) { Q p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } dp = n * (x * p1 - p0) / (x * x - 1); Q d = p1 / dp; x -= d; if (fabsq(d) < 1e-33Q) break; }
        glq.push_back({x, 2 / ((1 - x * x) * dp * dp)});
    }
}
static void gfun_ref(Q x, int nmax, std::vector<Q> &g)
{
    g.assign(nmax + 1, 0);
    // exponent falls off away from u = 1 for large x: panels in v = 1-u, geometrically refined towards v = 0
    Q top = 1; std::vector<Q> edge{1};
    while (top * x > 0.5Q && top > 1e-12Q) { top /= 2; edge.push_back(top); }
    edge.push_back(0);
    for (size_t p = 0; p + 1 < edge.size(); p++) {
        Q h = (edge[p] - edge[p + 1]) / 2, m = (edge[p] + edge[p + 1]) / 2;
        for (auto &w : glq) { Q v = m + h * w.first, t = v * (2 - v), f = h * w.second * expq(-x * t); for (int n = 0; n <= nmax; n++) { g[n] += f; f *= t; } }
    }
}
static void bessel_ref(Q x, int nmax, std::vector<Q> &b)
{
    b.assign(nmax + 1, 0);
    if (x > 300) {      // binary128 upward recursion is stable enough here
        Q e = expq(-2 * x); b[0] = (1 - e) / (2 * x); b[1] = ((1 + e) - (1 - e) / x) / (2 * x);
        for (int n = 1; n < nmax; n++) b[n + 1] = b[n - 1] - (2 * n + 1) / x * b[n];
        return;
    }
    for (int n = nmax; n >= std::max(0, nmax - 1); n--) {
        Q t = expq(-x); for (int k = 1; k <= n; k++) t *= x / (2 * k + 1);
        Q s = t; for (int k = 1; k < 3000; k++) { t *= x * x / ((Q) 2 * k * (2 * n + 2 * k + 1)); s += t; if (t < s * 1e-33Q) break; }
        b[n] = s;
    }
    for (int n = nmax - 1; n > 0; n--) b[n - 1] = b[n + 1] + (2 * n + 1) / x * b[n];
}
// sum (-1)^i e^{ix}/i^k, x <= 0, by pairing/averaging (Euler transformation is not needed: Cohen-Villegas-Zagier acceleration)
static Q sk_ref(int k, Q x)
{
    int n = 44; Q d = powq(3 + sqrtq((Q) 8), n); d = (d + 1 / d) / 2;
    Q b = -1, c = -d, s = 0;
    for (int i = 0; i < n; i++) { c = b - c; Q a = expq((i + 1) * x), p = 1; for (int j = 0; j < k; j++) p *= (i + 1); s += c * a / p; b = (i + n) * (Q) (i - n) * b / ((i + 0.5Q) * (i + 1)); }
    return -s / d;
}
static Q dawson_ref(Q x)
{
    Q ax = fabsq(x), r;
    if (ax < 9) { Q t = ax, s = ax; for (int k = 1; k < 900; k++) { t *= ax * ax / k; Q u = t / (2 * k + 1); s += u; if (u < s * 1e-34Q) break; } r = s * expq(-ax * ax);
    } else { Q y = 1 / (2 * ax * ax), t = 1, s = 1; for (int k = 1; k < 200; k++) { Q u = t * (2 * k - 1) * y; if (u >= t || u < 1e-34Q) break; t = u; s += t; } r = s / (2 * ax); }
    return x < 0 ? -r : r;
}
static Q rsh_ref(int l, int m, const double *k)
{
    Q x = k[0], y = k[1], z = k[2], r = sqrtq(x * x + y * y + z * z); x /= r; y /= r; z /= r;
    int am = std::abs(m); Q re = 1, im = 0;
    for (int i = 0; i < am; i++) { Q a = re * x - im * y; im = re * y + im * x; re = a; }
    Q p0 = 0, p1 = 1; for (int i = 1; i <= am; i++) p1 *= (2 * i - 1);       // P_m^m / sin^m, no Condon-Shortley phase
    for (int n = am + 1; n <= l; n++) { Q p2 = ((2 * n - 1) * z * p1 - (n + am - 1) * p0) / (n - am); p0 = p1; p1 = p2; }
    Q f = (2 * l + 1) / (4 * M_PIq); for (int i = l - am + 1; i <= l + am; i++) f /= i;
    return sqrtq(f) * p1 * (m == 0 ? 1 : sqrtq(2) * (m > 0 ? re : im));
}

static bool judge(Ctx &x, const char *what, double got, Q want, Q scale, double eps, const std::string &arg)
{
    double q = (double) (fabsq((Q) got - want) / (scale * (Q) eps));
    x.maxi(std::string("error_over_tolerance_") + what, q); x.count(std::string("values_") + what);
    if (!(q <= 1)) { x.fail(sf("%s(%s) = %.17g, expected %.17g, tolerance %.3g", what, arg.c_str(), got, (double) want, (double) (scale * (Q) eps))); return false; }
    return true;
}
static void do_boys(Ctx &x, double t)
{
    Q F[NB + 1]; boys_ref(t, NB, F);
    double b[NB + 2];
    for (int n = 0; n <= NB && have_1; n++) if (!judge(x, "boys_function", p_boys(n, t), F[n], F[n], 1.5e-12, sf("%d,%.17g", n, t))) return;
    for (int k = 0; k < 2 && have_2; k++) {
        int nm = k ? x.idx % (NB + 1) : NB; for (double &v : b) v = 777.5;
        p_boys_values(t, nm, b);
        for (int n = 0; n <= nm; n++) if (!judge(x, "boys_values", b[n], F[n], F[n], 1.5e-12, sf("%.17g,%d)[%d", t, nm, n))) return;
        if (b[nm + 1] != 777.5) { x.fail(sf("boys_values(%.17g,%d) wrote behind the values", t, nm)); return; }
    }
}
static void do_gfun(Ctx &x, double t)
{
    if (!have_3) return;
    std::vector<Q> g; gfun_ref(t, NB, g); double b[NB + 2];
    for (int k = 0; k < 2; k++) {
        int nm = k ? x.idx % (NB + 1) : NB; for (double &v : b) v = 777.5;
        p_gfun(t, nm, b);
        for (int n = 0; n <= nm; n++) if (!judge(x, "gfun", b[n], g[n], g[n], 2e-13, sf("%.17g,%d)[%d", t, nm, n))) return;
        if (b[nm + 1] != 777.5) { x.fail(sf("gfun_derivative_values(%.17g,%d) wrote behind the values", t, nm)); return; }
    }
}
// Known finding: above the table the library leaves out the decaying exponential, exp(-2x)/(2x) R_n(x) with alternating sign, which is not
// negligible for high orders just above x = 16 (the values in the project's reference matrices include that error). Values off by exactly this
// term are the finding; anything else is judged as everywhere.
static Q bessel_omitted(int n, Q x) { Q s = 0, t = 1; for (int k = 0; k <= n; k++) { s += t; t *= (Q) (n + k + 1) * (n - k) / ((k + 1) * 2 * x); } return (n % 2 == 0 ? -1 : 1) * expq(-2 * x) * s / (2 * x); }
static void do_bessel(Ctx &x, double t)
{
    if (!have_4) return;
    std::vector<Q> b;
    if (t == 0) { b.assign(NB + 1, 0); b[0] = 1; } else bessel_ref(t, NB, b);
    // the terms of the large-argument formula cancel for the highest orders
    for (int n = 0; n <= 22; n++) {
        double tol = n <= 18 ? 1e-11 : 5e-10, v = p_bessel(n, t); Q w = b[n];
        if (t >= 16 && t < 40) { Q o = w - bessel_omitted(n, t); if (fabsq((Q) v - o) < fabsq((Q) v - w)) { if (fabsq((Q) v - w) > tol * b[0]) x.count("bessel_values_with_the_known_error"); w = o; } }
        if (!judge(x, "bessel", v, w, b[0], tol, sf("%d,%.17g", n, t))) return;
    }
}
static void bessel_probes(Ctx &x)
{
    if (!have_4) return;
    static const struct { int n; double t; } P[] = {{18, 16.01}, {20, 16.01}, {22, 16.01}};
    for (auto &p : P) { std::vector<Q> b; bessel_ref(p.t, NB, b); double e = (double) fabsq((Q) p_bessel(p.n, p.t) - b[p.n]) / (double) b[0];
        if (!(e <= (p.n <= 18 ? 1e-11 : 5e-10))) x.fail(sf("scaled Bessel function of order %d at %g is off by %.2g of order zero", p.n, p.t, e), sf("bessel n=%d x=%g", p.n, p.t)); }
}
static void do_sk(Ctx &x, double t)
{
    if (!have_5) return;
    for (int k = 2; k <= 7; k++) if (!judge(x, "fermi_sk", p_sk(k, t), sk_ref(k, t), expq((Q) t), 2e-10, sf("%d,%.17g", k, t))) return;
}
static void do_dawson(Ctx &x, double t)
{
    if (!have_6) return;
    Q r = dawson_ref(t); judge(x, "dawson", p_dawson(t), r, fabsq(r) + 1e-300Q, 1e-14, sf("%.17g", t));
}
static void do_rsh(Ctx &x, int l, const double *k)
{
    double a[64]; int n = 2 * l + 1; for (double &v : a) v = 777.5;
    if (have_12) p_rsh_array(l, k, a);
    for (int m = -l; m <= l; m++) {
        Q r = rsh_ref(l, m, k); std::string w = sf("%d,%d,[%.17g,%.17g,%.17g]", l, m, k[0], k[1], k[2]);
        if (have_11 && !judge(x, "spherical_harmonic", p_rsh(l, m, k), r, 1, 1e-13 + 2e-16 * std::pow(2.5, l), w)) return;
        if (have_12 && !judge(x, "spherical_harmonics_array", a[m + l], r, 1, 1e-13 + 2e-16 * std::pow(2.5, l), w)) return;
    }
    if (have_12 && a[n] != 777.5) x.fail("evaluate_real_spherical_harmonics_array wrote behind its values");
}
static void integers(Ctx &x)
{
    Q f = 1; std::vector<Q> F{1};
    for (int n = 1; n <= 60; n++) { f *= n; F.push_back(f); }
    for (int n = -3; n <= 60 && have_7; n++) if (!judge(x, "factorial", p_fact(n), n < 0 ? (Q) 1 : F[n], n < 0 ? (Q) 1 : F[n], n <= 20 ? 1e-30 : 1e-14, sf("%d", n))) return;
    for (int n = 0; n <= 60 && have_8; n++) for (int m = 0; m <= 60; m++) if (!judge(x, "factorial_ratio", p_fratio(n, m), F[n] / F[m], F[n] / F[m], 2e-14, sf("%d,%d", n, m))) return;
    Q d[2] = {1, 1};
    for (int n = -1; n <= 60 && have_9; n++) { Q &v = d[(n + 2) & 1]; if (n > 0) v *= n; if (!judge(x, "double_factorial", p_dfact(n), v, v, n <= 30 ? 1e-16 : 1e-14, sf("%d", n))) return; }
    for (int n = 0; n <= 60 && have_10; n++) {
        std::vector<unsigned __int128> row(n + 1, 1); for (int i = 1; i <= n; i++) for (int j = i - 1; j > 0; j--) row[j] += row[j - 1];
        for (int k = 0; k <= n; k++) { x.count("values_binomial"); uint64_t v = p_binom(n, k); if (v != (uint64_t) row[k]) { x.fail(sf("binomial(%d,%d) = %llu", n, k, (unsigned long long) v)); return; } }
        for (int k = n + 1; k < n + 4 && n > 0; k++) if (k > 1 && p_binom(n, k) != 0) { x.fail(sf("binomial(%d,%d) is not 0", n, k)); return; }
    }
}
// the sweep: cells of a width that divides every table step in use, five points in each; then the seams; then random arguments
static const int CB = 300 + 100, CG = 400, CS = 2100 + 200, CK = 1700;      // boys, gfun, fermi sums (step 0.005), bessel (step 0.01)
static void c27(Ctx &x)
{
    Rng g = x.rng(); long i = x.idx; std::string d;
    auto pts = [&](double lo, double h, std::function<void(double)> f) { for (double u : {0.0, 0.25, 0.5 - 1e-9, 0.5 + 1e-9, 0.75, 1 - 1e-12, g.u(), g.u()}) { f(lo + h * u); if (x.case_failed) return; } };
    if (i == 0) { d = "integers"; x.desc(d); integers(x); bessel_probes(x); }
    else if ((i -= 1) < CB) { d = sf("boys %ld", i); x.desc(d); pts(0.1 * i, 0.1, [&](double t) { do_boys(x, t); }); }
    else if ((i -= CB) < CG) { d = sf("gfun %ld", i); x.desc(d); pts(0.1 * i, 0.1, [&](double t) { do_gfun(x, t); }); }
    else if ((i -= CG) < CS) { d = sf("fermi %ld", i); x.desc(d); pts(-0.005 * (i + 1), 0.005, [&](double t) { do_sk(x, t); }); }
    else if ((i -= CS) < CK) { d = sf("bessel %ld", i); x.desc(d); pts(0.01 * i, 0.01, [&](double t) { do_bessel(x, t); }); }
    else if ((i -= CK) < 700) { d = sf("dawson %ld", i); x.desc(d); pts(0.05 * i, 0.05, [&](double t) { do_dawson(x, t); if (!x.case_failed) do_dawson(x, -t); }); }
    else if ((i -= 700) < 66 * 23) {      // spherical harmonics: poles, axes, near-axis directions, lattice and random directions, any length
        int l = i % 23; double k[3];
        int kind = (int) (i / 23) % 6; V3 v = rand_dir(g);
        if (kind == 0) { v = {{0, 0, 0}}; v[g.i(0, 2)] = g.sgn(); } else if (kind == 1) v = {{v[0] * 1e-8, v[1] * 1e-8, g.sgn()}}; else if (kind == 2) v[g.i(0, 2)] = 0;
        else if (kind == 3) { do for (int q = 0; q < 3; q++) v[q] = g.i(-3, 3); while (nrm(v) == 0); }
        double s = g.chance(0.3) ? 1 : g.logu(1e-9, 1e6); for (int q = 0; q < 3; q++) k[q] = v[q] * s;
        d = sf("rsh %d %s", l, js(v).c_str()); x.desc(d); do_rsh(x, l, k);
    } else {
        int w = g.i(0, 4); double t;
        static const double seam[] = {1e-12, 1e-9, 1e-7, 1e-6, 1e-4, 1e-3, 0.05, 0.1, 0.5, 1, 5, 10, 12, 15.995, 16, 20, 25, 29.95, 30, 35, 50, 100, 700};
        if (g.chance(0.4)) t = seam[g.i(0, 22)] * (1 + g.sgn() * g.logu(1e-16, 1e-2)); else t = g.chance(0.5) ? g.uni(0, 40) : g.logu(1e-10, 2e3);
        d = sf("random %d %.17g", w, t); x.desc(d);
        if (w == 0) do_boys(x, t * (g.chance(0.3) ? 50 : 1)); else if (w == 1) do_gfun(x, t); else if (w == 2) do_bessel(x, t * (g.chance(0.3) ? 50 : 1)); else if (w == 3) do_sk(x, -std::min(t, 600.0)); else do_dawson(x, g.sgn() * t);
    }
    x.nontrivial(d);
}
static void c27_init(Ctx &x)
{
    libgrpp_init(); gl_init();
    int h[] = {have_1, have_2, have_3, have_4, have_5, have_6, have_7, have_8, have_9, have_10, have_11, have_12}; int n = 0; for (int v : h) n += v;
    x.maxi("functions_observed", n);
}
static Reg r27("C27", c27, c27_init);
