// C08: nuclear charge models. Density, potential and rms radius of the library are compared with each other through quadrature and with
// the written definition of every model; estimates with their published formulas.
#include "mon.hpp"

static ld dens_def(int m, ld r, ld R, ld c, ld a, ld k)      // unnormalised, ball and Gaussian normalised to 1
{
    switch (m) {
    case 0: { ld R0 = sqrtl(5.0L / 3) * R; return r <= R0 ? 3 / (4 * M_PIl * R0 * R0 * R0) : 0; }
    case 1: { ld xi = 1.5L / (R * R); return powl(xi / M_PIl, 1.5L) * expl(-xi * r * r); }
    case 2: return 1 / (1 + expl((r - c) / a));
    default: return (1 + k * r * r / (c * c)) / (1 + expl((r - c) / a));
    }
}
struct CloudL {     // moments of a density on panels, long double
    std::vector<ld> x, q, w; std::function<ld(ld)> rho; ld Q = 0, r2 = 0;
    CloudL(std::function<ld(ld)> f, std::vector<ld> e) : x(e), rho(f)
    {
        size_t n = x.size(); q.assign(n, 0); w.assign(n, 0);
        for (size_t i = 0; i + 1 < n; i++) { q[i + 1] = q[i] + in(x[i], x[i + 1], 2); r2 += in(x[i], x[i + 1], 4); }
        for (size_t i = n - 1; i-- > 0;) w[i] = w[i + 1] + in(x[i], x[i + 1], 1);
        Q = q[n - 1];
    }
    ld in(ld a, ld b, int p) const { const GL &g = gl(24); ld s = 0; for (int i = 0; i < 24; i++) { ld t = a + (b - a) * g.x[i], u = t; for (int j = 1; j < p; j++) u *= t; s += g.w[i] * rho(t) * u; } return s * (b - a); }
    ld pot(ld r) const { if (r >= x.back()) return -Q / r; size_t k = std::upper_bound(x.begin(), x.end(), r) - x.begin() - 1; return -(q[k] + in(x[k], r, 2)) / r - (w[k + 1] + in(r, x[k + 1], 1)); }
};
static std::vector<ld> edges(int m, ld R, ld c, ld a)
{
    std::vector<ld> e; ld R0 = sqrtl(5.0L / 3) * R, top = m == 0 ? R0 : m == 1 ? R * 9.5L : c + 52 * a;
    for (int i = 0; i <= 60; i++) e.push_back(top * i / 60);
    if (m >= 2) { e.push_back(c); for (int i = 1; i < 52; i++) { if (c - a * i > 0) e.push_back(c - a * i); e.push_back(c + a * i); } }
    std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end());
    return e;
}
static void c08(Ctx &x)
{
    Rng g = x.rng(); const double fm = 1 / 52917.7210903;
    if (x.idx % 8 == 7) {       // estimates
        int A = (int) (x.idx / 8 % 400) + 1; double R = g.chance(0.3) ? g.uni(0.01, 3) : g.uni(1, 10); if (g.chance(0.2)) R = M_PI * 2.3 / (4 * std::log(3.0)) * std::sqrt(1.4) * (1 + g.sgn() * g.logu(1e-10, 1e-2));
        x.desc(sf("{\"A\":%d,\"R_rms\":%.17g}", A, R)); x.nontrivial(x.cur); x.count("estimates");
        ld j = 0.836L * cbrtl(A) + 0.570L, go = 0.77L * cbrtl(A) + 0.98L;
        if (!(fabsl(libgrpp_estimate_nuclear_rms_radius_johnson_1985(A) / j - 1) < 1e-14L)) { x.fail("rms radius estimate (Johnson 1985) does not follow 0.836 A^(1/3) + 0.570"); return; }
        if (!(fabsl(libgrpp_estimate_nuclear_rms_radius_golovko_2008(A) / go - 1) < 1e-14L)) { x.fail("rms radius estimate (Golovko 2008) does not follow 0.77 A^(1/3) + 0.98"); return; }
        double c = NAN, a = NAN; int rc = libgrpp_estimate_fermi_model_parameters(R, &c, &a);
        ld aw = 2.3L / (4 * logl(3)), c2 = 5.0L / 3 * R * R - 7.0L / 3 * M_PIl * M_PIl * aw * aw;
        if (c2 < -1e-12L && rc != -1) { x.fail(sf("parameter estimate for R_rms = %.17g fm returns %d although no real parameter exists", R, rc)); return; }
        if (c2 > 1e-12L) {
            x.count("fermi_parameters");
            if (rc != 1 || !(std::fabs(a / (double) aw - 1) < 1e-14) || !(fabsl((ld) c * c - c2) < 1e-13L * (5.0L / 3 * R * R))) { x.fail(sf("parameter estimate for R_rms = %.17g fm: status %d, c = %.17g, a = %.17g", R, rc, c, a)); return; }
            // with these parameters the density has (nearly: the formula drops exp(-c/a)) the radius asked for
            if (c / a > 8) { double rr = libgrpp_rms_radius_fermi(1, c, a); if (!(std::fabs(rr / R - 1) < 0.2 * std::exp(-c / a) * std::pow(c / a, 3) + 3e-3)) { x.fail(sf("estimated parameters give rms radius %.17g instead of %.17g", rr, R)); return; } }
        } else if (c2 < -1e-12L) x.count("no_real_parameters");
        return;
    }
    int m = (int) (x.idx % 4), Z = g.i(1, 118); double big = g.chance(0.5) ? fm : g.logu(fm, 1.0);
    double R = g.uni(0.7, 7) * big, c = g.uni(1.5, 8) * big, a = 2.3 / (4 * std::log(3.0)) * big * g.uni(0.6, 1.6), k = g.chance(0.5) ? g.uni(0, 3) : g.uni(-0.9, 0);
    if (g.chance(0.15)) a = c * g.uni(0.3, 2); if (g.chance(0.1)) a = c * g.uni(0.02, 0.05);
    static const char *MN[] = {"ball", "gaussian", "fermi", "fermi_bubble"};
    x.desc(sf("{\"model\":\"%s\",\"Z\":%d,\"R_rms\":%.17g,\"c\":%.17g,\"a\":%.17g,\"k\":%.17g}", MN[m], Z, R, c, a, k)); x.nontrivial(x.cur); x.count(MN[m]);
    auto rho = [&](double r) { switch (m) { case 0: return libgrpp_charge_density_ball(r, Z, R); case 1: return libgrpp_charge_density_gaussian(r, Z, R); case 2: return libgrpp_charge_density_fermi(r, Z, c, a); default: return libgrpp_charge_density_fermi_bubble(r, Z, c, a, k); } };
    auto pot = [&](double r) { switch (m) { case 0: return libgrpp_coulomb_potential_ball(r, Z, R); case 1: return libgrpp_coulomb_potential_gaussian(r, Z, R); case 2: return libgrpp_coulomb_potential_fermi(r, Z, c, a); default: return libgrpp_coulomb_potential_fermi_bubble(r, Z, c, a, k); } };
    auto E = edges(m, R, c, a); CloudL D([&](ld r) { return dens_def(m, r, R, c, a, k); }, E); ld nrmf = Z / (4 * M_PIl * D.Q);
    ld absQ = 0; { CloudL Aq([&](ld r) { return fabsl(dens_def(m, r, R, c, a, k)); }, E); absQ = Aq.Q; }
    ld cond = absQ / fabsl(D.Q); if (cond > 30 || D.r2 * nrmf <= 0) { x.count("unphysical_parameters_skipped"); return; }
    if (m >= 2) cond *= 1 + powl(a / c, m == 2 ? 3 : 5) * 3;
    // the Fermi sums are tabulated with an absolute error below 3e-11; size of its effect on the normalisation
    const ld sk = 3e-11L; ld kk = m == 3 ? fabsl(k) : 0, a1 = a, c1 = c, N = 3 * fabsl(D.Q) / (c1 * c1 * c1), nerr = m < 2 ? 0 : sk * (6 * powl(a1 / c1, 3) + 72 * kk * powl(a1 / c1, 5)) / N;
    // 1. density against its definition at every kind of radius; charge and rms radius by quadrature of the library's density
    ld top = E.back();
    for (int i = 0; i < 12; i++) {
        double r = (double) (top * (i < 8 ? powl(g.u(), 2) : g.uni(1, 1.5))); if (i == 0) r = 0; if (i == 1 && m >= 2) r = c * (1 + (g.chance(0.5) ? 0 : g.sgn() * g.logu(1e-16, 1e-3)));
        if (m == 0 && std::fabs(r / (double) top - 1) < 1e-12) r = 0.999 * (double) top;
        ld w = nrmf * dens_def(m, r, R, c, a, k), sc = fabsl(w) * (1 + (m == 1 ? 1.5L * r * r / (R * (ld) R) : m >= 2 ? r / (ld) a : 0)); double v = rho(r); x.count("densities");
        ld lim = 4e-14L * cond * sc + nerr * fabsl(w) + 1e-290L; x.maxi("density_error_over_tolerance", (double) (fabsl(v - w) / lim));
        if (!(fabsl(v - w) <= lim)) { x.fail(sf("%s density at r = %.17g is %.17g, expected %.17Lg", MN[m], r, v, w)); return; }
    }
    CloudL LQ([&](ld r) { return (ld) rho((double) r); }, E);
    ld q = 4 * M_PIl * LQ.Q; x.maxi("charge_relative_error", (double) fabsl(q / Z - 1)); x.count("charges");
    if (!(fabsl(q / Z - 1) < 3e-13L * cond + nerr)) { x.fail(sf("%s density integrates to %.17Lg instead of %d", MN[m], q, Z)); return; }
    ld rms = sqrtl(LQ.r2 / LQ.Q);
    if (m < 2) { if (!(fabsl(rms / R - 1) < 3e-13L)) { x.fail(sf("%s density has rms radius %.17Lg instead of %.17g", MN[m], rms, R)); return; } }
    else { double lr = m == 2 ? libgrpp_rms_radius_fermi(Z, c, a) : libgrpp_rms_radius_fermi_bubble(Z, c, a, k); ld cc = cond * (1 + powl(a / c, 5) * 10 + powl(a / c, 7) * 100) * (m == 3 ? 1 + fabsl(k) : 1); ld lm = 2e-13L * cc + nerr + sk * (120 * powl(a1 / c1, 5) + 5040 * kk * powl(a1 / c1, 7)) * c1 * c1 / (N * rms * rms); x.maxi("rms_error_over_tolerance", (double) (fabsl(lr / rms - 1) / lm)); if (!(fabsl(lr / rms - 1) < lm)) { x.fail(sf("%s rms radius reported %.17g, that of the density %.17Lg", MN[m], lr, rms)); return; } }
    // 2. potential against that of the defined density, everywhere
    for (int i = 0; i < 24; i++) {
        double r; switch (i % 8) { case 0: r = (double) (top * g.logu(1e-6, 1)); break; case 1: r = (double) top * g.uni(0, 1); break; case 2: r = m >= 2 ? c * (1 + g.sgn() * g.logu(1e-16, 1e-1)) : (double) top * (1 + g.sgn() * g.logu(1e-16, 1e-1)); break;
            case 3: r = m >= 2 ? c : (double) top; break; case 4: r = (double) top * g.logu(1, 1e6); break; case 5: r = m >= 2 ? c + a * g.uni(-3, 40) : R * g.uni(0.1, 9); break; case 6: r = m >= 2 ? c * g.uni(0.0, 1) : R * g.u(); break; default: r = (double) top * g.uni(0.5, 1.1); }
        if (!(r > 0)) r = 0.5 * R;
        ld w = 4 * M_PIl * nrmf * D.pot(r); double v = pot(r); x.count("potentials");
        ld len = m < 2 ? R : c, lim = 2e-14L * cond * (fabsl(w) + Z / (ld) r * (m == 0 ? 0 : r < len ? powl(a / (ld) c, 3) * (m >= 2) + 0.05L : 1));
        if (m >= 2) { ld a3 = a1 * a1 * a1, q1 = r; lim += nerr * fabsl(w) + sk * 3 * Z / (N * powl(c1, 3)) * (a1 * a1 + 4 * a3 / q1 + kk / (c1 * c1) * (a1 * a1 * q1 * q1 + 6 * a3 * q1 + 18 * a3 * a1 + 48 * a3 * a1 * a1 / q1)); }
        x.maxi("potential_error_over_tolerance", (double) (fabsl(v - w) / lim));
        if (!(fabsl(v - w) <= lim)) { x.fail(sf("%s potential at r = %.17g (%.6g of the extent) is %.17g, that of the density %.17Lg (tolerance %.3Lg)", MN[m], r, r / (double) len, v, w, lim)); return; }
    }
    double r = g.logu(1e-6, 1e3); if (!(std::fabs(libgrpp_coulomb_potential_point(r, Z) * r / Z + 1) < 1e-15)) x.fail("potential of the point charge is not -Z/r");
}
static Reg r08("C08", c08);
