// Random cases. Besides generic ones the generator makes the special structures code tends to switch on: coincident, collinear,
// coplanar, symmetric and lattice geometries, equal exponents, long contractions, zero/cancelling/huge coefficients, empty potentials.
#pragma once
#include "model.hpp"

struct GenOpt {
    int LA = -1, LB = -1, l = -1;       // fixed values, or -1: random
    int Lmax = 5, lmax = 4;             // random up to
    int geo = -1;
    double dmax = 4, amax = 200;        // distances from the potential centre; exponents
    int ncmax = 25, npmax = 10;         // contraction length, potential length
    bool resolvable = false;            // restrict to exponents the radial quadrature can resolve at that distance
    bool exact_zero_coef = true;
    double budget = 3000;               // limit on the number of expansion terms of numerically evaluated cases (cost)
};
enum { GEO_GEN, GEO_ALL1, GEO_AB, GEO_AC, GEO_BC, GEO_LINE, GEO_PLANE, GEO_SYM, GEO_FAR, GEO_CLOSE, GEO_LATTICE, GEO_EQDIST, GEO_OPP, NGEO };
static const char *GEO_NAME[] = {"generic", "one_centre", "A=B", "A=C", "B=C", "collinear_axis", "coplanar", "symmetric", "displaced", "close", "lattice", "equidistant", "collinear_any"};

inline void gen_geo(Rng &g, Case &c, int geo, double dmax)
{
    auto v = [&](double lo, double hi) { return g.uni(lo, hi) * rand_dir(g); };
    c.C = g.chance(0.25) ? V3{{0, 0, 0}} : v(0, 2);
    c.A.o = c.C + v(0.15, dmax); c.B.o = c.C + v(0.15, dmax);
    switch (geo) {
    case GEO_ALL1: c.A.o = c.B.o = c.C; break;
    case GEO_AB: c.B.o = c.A.o; break;
    case GEO_AC: c.A.o = c.C; break;
    case GEO_BC: c.B.o = c.C; break;
    case GEO_LINE: { int k = g.i(0, 2); for (int d = 0; d < 3; d++) if (d != k) c.A.o[d] = c.B.o[d] = c.C[d]; double s = g.sgn(); c.A.o[k] = c.C[k] + s * g.uni(0.15, dmax); c.B.o[k] = c.C[k] + g.sgn() * g.uni(0.15, dmax); break; }
    case GEO_PLANE: { int k = g.i(0, 2); c.A.o[k] = c.B.o[k] = c.C[k]; break; }
    case GEO_SYM: { c.B.o = c.C + (c.C - c.A.o); break; }
    case GEO_FAR: { V3 s{{(double) g.i(-20, 20), (double) g.i(-20, 20), (double) g.i(-20, 20)}}; c.A.o = c.A.o + s; c.B.o = c.B.o + s; c.C = c.C + s; break; }
    case GEO_CLOSE: { int k = g.i(0, 2); double e = g.logu(0.02, 0.3); if (k == 0) c.B.o = c.A.o + e * rand_dir(g); else if (k == 1) c.A.o = c.C + e * rand_dir(g); else { c.A.o = c.C + e * rand_dir(g); c.B.o = c.C + g.logu(0.02, 0.3) * rand_dir(g); } break; }
    case GEO_LATTICE: { double h = g.pick({0.5, 1.0, 0.75}); for (int d = 0; d < 3; d++) { c.C[d] = h * g.i(-1, 1); c.A.o[d] = h * g.i(-2, 2); c.B.o[d] = h * g.i(-2, 2); } break; }
    case GEO_EQDIST: { double r = nrm(c.A.o - c.C); c.B.o = c.C + r * rand_dir(g); break; }
    case GEO_OPP: { V3 u = c.A.o - c.C; u = (1 / nrm(u)) * u; c.B.o = c.C + (g.sgn() * g.uni(0.15, dmax)) * u; break; }
    }
}
// largest exponent the radial grid can resolve at distance d from the potential centre (see DESIGN: known finding on tight far functions)
inline double resolvable_exponent(double d) { double dr = 15e-4 * std::exp(d / 5); return d == 0 ? 1e6 : std::min(3e3, std::pow(0.07 / dr, 2)); }

inline void gen_shell(Rng &g, Sh &s, int L, double d, const GenOpt &o)
{
    s.L = L;
    double u = g.u(); int n = u < 0.4 ? 1 : u < 0.75 ? g.i(2, 3) : u < 0.95 ? g.i(4, 8) : g.i(9, 25);
    n = std::min(n, o.ncmax);
    double hi = std::min(o.amax, o.resolvable ? resolvable_exponent(d) : 1e30), lo = 0.05;
    if (hi < 2 * lo) hi = 2 * lo;
    if (g.chance(0.08) && d == 0) hi = std::max(hi, 1e4);
    if (g.chance(0.05)) lo = 0.01;
    s.a.clear(); s.c.clear();
    bool even = n > 2 && g.chance(0.3); double a0 = g.logu(lo, hi), be = g.uni(1.5, 3.5);
    for (int i = 0; i < n; i++) {
        double a = even ? std::max(lo, std::min(hi, a0 * std::pow(be, i - n / 2))) : g.logu(lo, hi);
        if (g.chance(0.1)) a = g.pick({0.25, 0.5, 1.0, 2.0, 4.0});
        a = std::min(a, std::max(hi, 0.25));
        s.a.push_back(a);
        s.c.push_back(g.chance(0.15) ? g.pick({1.0, -1.0, 0.5, 2.0}) : g.uni(-1.5, 1.5));
    }
    if (n > 1 && g.chance(0.1)) s.a[1] = s.a[0];
    if (o.exact_zero_coef && n > 1 && g.chance(0.08)) s.c[g.i(0, n - 1)] = 0;
    if (n > 1 && g.chance(0.05)) s.c[g.i(0, n - 1)] *= 1e-5;
}
inline void gen_pot(Rng &g, Pt &p, int L, const GenOpt &o, int nmin = 1)
{
    double u = g.u(); int n = u < 0.4 ? 1 : u < 0.85 ? g.i(2, 4) : g.i(5, o.npmax < 5 ? 5 : o.npmax);
    n = std::max(nmin, std::min(n, o.npmax));
    p.L = L; p.J = L == 0 ? 1 : (g.chance(0.5) ? 2 * L - 1 : 2 * L + 1);
    p.n.clear(); p.c.clear(); p.a.clear();
    int mono = g.chance(0.3) ? g.i(0, 2) : -1;
    for (int i = 0; i < n; i++) {
        p.n.push_back(mono >= 0 ? mono : g.i(0, 2));
        p.a.push_back(g.chance(0.1) ? g.pick({0.5, 1.0, 2.0}) : g.logu(0.1, std::min(o.amax, 60.0)));
        p.c.push_back(g.chance(0.1) ? g.pick({1.0, -1.0}) : g.chance(0.1) ? g.uni(-500, 500) : g.uni(-10, 10));
    }
    if (n > 1 && g.chance(0.15)) { p.a[1] = p.a[0]; if (g.chance(0.5)) p.n[1] = p.n[0]; }
    if (n > 1 && g.chance(0.06)) p.c[g.i(0, n - 1)] = 0;
}
inline void gen_oc(Rng &g, std::vector<Oc> &v, int n, const V3 &C, const GenOpt &o)
{
    v.clear();
    for (int i = 0; i < n; i++) {
        Oc q; int l = o.l >= 0 && i == 0 ? o.l : g.chance(0.93) ? g.i(0, std::min(3, o.lmax)) : g.i(0, o.lmax);
        if (i > 0 && g.chance(0.5)) l = v[i - 1].sh.L;
        GenOpt p = o; p.amax = 30; p.npmax = 4; p.ncmax = 6;
        gen_pot(g, q.pot, l, p);
        if (i > 0 && l == v[i - 1].sh.L && g.chance(0.6)) q.pot.J = v[i - 1].pot.J;
        int nc = g.chance(0.5) ? 1 : g.i(2, 5);
        q.sh.L = l; q.sh.o = g.chance(0.5) ? C : C + g.uni(0, 3) * rand_dir(g);
        for (int k = 0; k < nc; k++) { q.sh.a.push_back(g.logu(0.1, 40)); q.sh.c.push_back(g.uni(-1.2, 1.2)); }
        v.push_back(q);
    }
}
inline Case gen_case(Rng &g, int fn, GenOpt o = GenOpt())
{
    Case c; c.fn = fn; int b = base_fn(fn);
    bool num = is_semi(fn) || (is_nuc(fn) && fn != NPT);
    if (num) o.resolvable = true;
    if (is_nuc(fn) && fn != NPT) o.ncmax = std::min(o.ncmax, 3);
    int geo = o.geo >= 0 ? o.geo : g.i(0, NGEO - 1);
    gen_geo(g, c, geo, o.dmax);
    int lsel = o.l >= 0 ? o.l : g.chance(0.8) ? g.i(0, std::min(4, o.lmax)) : g.i(0, o.lmax), lbig = lsel;
    std::vector<int> ls; for (int i = 0; i < 6; i++) ls.push_back(o.l >= 0 ? o.l : g.chance(0.93) ? g.i(0, std::min(3, o.lmax)) : g.i(0, o.lmax));
    if (b == FULL) for (int l : ls) lbig = std::max(lbig, l);
    int LA = o.LA >= 0 ? o.LA : g.i(0, o.Lmax), LB = o.LB >= 0 ? o.LB : g.i(0, o.Lmax);
    if (num && b != OC) {      // the cost of the numerical families grows as the product of the numbers of expansion terms
        double bud = o.budget * (g.chance(0.04) ? 4 : 1);
        if (b == T2 || b == SO || b == FULL) bud /= (b == SO ? 2 : b == FULL ? 6 : 1) * (1 + std::pow(lbig / 3.5, 3));
        auto terms = [&](int L, const V3 &X) { L += is_grad(fn); return X == c.C ? (double) csize(L) : std::tgamma(L + 6.0) / std::tgamma(L + 1.0) / 120; };
        for (int k = 0; k < 200 && terms(LA, c.A.o) * terms(LB, c.B.o) > bud; k++) {
            if (o.LA < 0) LA = g.i(0, o.Lmax);
            if (o.LB < 0) LB = g.i(0, o.Lmax);
            if (o.LA < 0 && o.LB < 0 && g.chance(0.3)) { LA = g.i(0, std::min(4, o.Lmax)); LB = g.i(0, std::min(4, o.Lmax)); }
        }
        if (terms(LA, c.A.o) * terms(LB, c.B.o) > bud) { if (o.LA < 0) LA = std::min(LA, 2); if (o.LB < 0) LB = std::min(LB, 2); }
    }
    gen_shell(g, c.A, LA, nrm(c.A.o - c.C), o); gen_shell(g, c.B, LB, nrm(c.B.o - c.C), o);
    if (g.chance(0.05)) { c.B.a = c.A.a; c.B.c = c.A.c; if (o.resolvable) { double h = resolvable_exponent(nrm(c.B.o - c.C)); for (auto &x : c.B.a) x = std::min(x, h); } }
    int il = 0;
    auto L = [&]() { return ls[il++]; };
    if (b == T1 || b == T2) gen_pot(g, c.U, lsel, o, g.chance(0.02) ? 0 : 1);
    if (b == SO) gen_pot(g, c.U, lsel, o);
    if (b == OC) gen_oc(g, c.oc, g.chance(0.03) ? 0 : g.i(1, 4), c.C, o);
    if (b == FULL) {
        GenOpt p = o; p.npmax = std::min(o.npmax, 3);
        c.gr.has_loc = g.chance(0.85); if (c.gr.has_loc) gen_pot(g, c.gr.loc, g.i(0, o.lmax), p);
        int na = g.i(0, 3), ns = g.i(0, 2), no = g.i(0, 2);
        for (int i = 0; i < na; i++) { Pt q; gen_pot(g, q, L(), p); c.gr.arep.push_back(q); }
        for (int i = 0; i < ns; i++) { Pt q; gen_pot(g, q, L(), p); c.gr.esop.push_back(q); }
        gen_oc(g, c.gr.oc, no, c.C, p);
    }
    if (is_nuc(fn)) {
        c.Z = g.chance(0.2) ? g.pick({1, 2, 120}) : g.i(1, 118);
        const double fm = 1 / 52917.7210903; double big = g.chance(0.35) ? g.pick({30.0, 300.0, 3000.0}) : 1;
        if (fn == NBALL || fn == NGAUSS) c.prm = {g.uni(0.8, 6) * fm * big};
        if (fn == NFERMI || fn == NBUB) { double a = 2.3 / (4 * std::log(3.0)) * g.uni(0.8, 1.2); c.prm = {g.uni(2.5, 7) * fm * big, a * fm * big}; if (fn == NBUB) c.prm.push_back(g.uni(-0.3, 1)); }
    }
    if (is_grad(fn)) { double u = g.u(); c.P = u < 0.35 ? c.A.o : u < 0.65 ? c.B.o : u < 0.93 ? c.C : c.C + g.uni(0.5, 2) * rand_dir(g); }
    return c;
}
// size and hash of a case, for the evidence
inline uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }
// all families, and sizes that keep one case of each within milliseconds
static const int ALLF[] = {OVL, KIN, MOM, T1, T2, SO, OC, FULL, NPT, NNUM, NBALL, NGAUSS, NFERMI, NBUB, GOVL, GT1, GT2, GSO, GOC, GFULL};
inline GenOpt opt_for(Rng &g, int fn)
{
    GenOpt o; o.ncmax = 4; o.npmax = 4; o.Lmax = 8; o.lmax = g.chance(0.2) ? 8 : 4; o.budget = 1200;
    if (is_nuc(fn) && fn != NPT) o.budget = 250;
    if (fn == T1 || fn == GT1) { o.ncmax = 3; o.npmax = 3; if (fn == GT1) o.Lmax = 5; }
    if (fn == OC || fn == FULL) { o.Lmax = 4; o.lmax = 3; }
    if (fn == GOC || fn == GFULL) { o.Lmax = 3; o.lmax = 3; o.ncmax = 3; o.budget = 1000; }
    if (fn == GT2 || fn == GSO) { o.Lmax = 5; o.budget = 800; }
    return o;
}
