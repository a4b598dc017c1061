// Differential monitor of the Fortran-callable interface (C25): every symbol against the C interface for the same data.
#include "mon.hpp"
#include "fort.hpp"

static void lib_init(Ctx &) { libgrpp_init(); }
static Alloc heap(std::vector<void *> &bl) { return [&bl](size_t n) { void *p = malloc(n ? n : 1); bl.push_back(p); return p; }; }
static bool beq(double a, double b) { return memcmp(&a, &b, 8) == 0 || a == b; }
static void scalars(Ctx &x, Rng &g)
{
    const double fm = 1 / 52917.7210903; double R = g.uni(0.5, 8) * fm, c = g.uni(2, 7) * fm, a = g.uni(0.4, 0.6) * fm, k = g.uni(-0.3, 1.2), Z = g.chance(0.3) ? g.uni(1, 120) : g.i(1, 120); I4 iz = g.i(1, 118), A = g.i(1, 300);
    double r = g.chance(0.6) ? g.pick({R, c}) * g.uni(0.02, 3) : g.logu(1e-8, 10);
    x.desc(sf("{\"R\":%.17g,\"c\":%.17g,\"a\":%.17g,\"k\":%.17g,\"Z\":%.17g,\"iz\":%d,\"A\":%d,\"r\":%.17g}", R, c, a, k, Z, iz, A, r)); x.nontrivial(x.cur); x.count("scalar_cases");
    double v; auto same = [&](const char *nm, double w) { x.count("scalars"); if (!beq(v, w)) x.fail(sf("%s: %.17g, C interface %.17g", nm, v, w)); };
    libgrpp_estimate_nuclear_rms_radius_johnson_1985_(&A, &v); same("rms_radius_johnson", libgrpp_estimate_nuclear_rms_radius_johnson_1985(A));
    libgrpp_estimate_nuclear_rms_radius_golovko_2008_(&A, &v); same("rms_radius_golovko", libgrpp_estimate_nuclear_rms_radius_golovko_2008(A));
    double c1 = -1, a1 = -1, c2 = -1, a2 = -1; I4 e1 = 77; libgrpp_estimate_fermi_model_parameters_(&R, &c1, &a1, &e1); int e2 = libgrpp_estimate_fermi_model_parameters(R, &c2, &a2);
    if (e1 != e2 || !beq(c1, c2) || !beq(a1, a2)) x.fail(sf("estimate_fermi_model_parameters: %d %.17g %.17g, C interface %d %.17g %.17g", e1, c1, a1, e2, c2, a2)); x.count(sf("fermi_code_%d", e2));
    libgrpp_charge_density_ball_(&r, &Z, &R, &v); same("charge_density_ball", libgrpp_charge_density_ball(r, Z, R));
    libgrpp_charge_density_gaussian_(&r, &Z, &R, &v); same("charge_density_gaussian", libgrpp_charge_density_gaussian(r, Z, R));
    libgrpp_charge_density_fermi_(&r, &Z, &c, &a, &v); same("charge_density_fermi", libgrpp_charge_density_fermi(r, Z, c, a));
    libgrpp_charge_density_fermi_bubble_(&r, &Z, &c, &a, &k, &v); same("charge_density_fermi_bubble", libgrpp_charge_density_fermi_bubble(r, Z, c, a, k));
    libgrpp_coulomb_potential_point_(&r, &Z, &v); same("coulomb_potential_point", libgrpp_coulomb_potential_point(r, Z));
    libgrpp_coulomb_potential_ball_(&r, &Z, &R, &v); same("coulomb_potential_ball", libgrpp_coulomb_potential_ball(r, Z, R));
    libgrpp_coulomb_potential_gaussian_(&r, &Z, &R, &v); same("coulomb_potential_gaussian", libgrpp_coulomb_potential_gaussian(r, Z, R));
    libgrpp_coulomb_potential_fermi_(&r, &Z, &c, &a, &v); same("coulomb_potential_fermi", libgrpp_coulomb_potential_fermi(r, Z, c, a));
    libgrpp_coulomb_potential_fermi_bubble_(&r, &Z, &c, &a, &k, &v); same("coulomb_potential_fermi_bubble", libgrpp_coulomb_potential_fermi_bubble(r, Z, c, a, k));
    libgrpp_rms_radius_fermi_(&iz, &c, &a, &v); same("rms_radius_fermi", libgrpp_rms_radius_fermi(iz, c, a));
    libgrpp_rms_radius_fermi_bubble_(&iz, &c, &a, &k, &v); same("rms_radius_fermi_bubble", libgrpp_rms_radius_fermi_bubble(iz, c, a, k));
}
static void settings(Ctx &x, Rng &g)
{
    double t[3] = {g.logu(1e-20, 1), g.logu(1e-20, 1), g.logu(1e-20, 1)}; x.desc("{\"settings\":" + js(std::vector<double>(t, t + 3)) + "}"); x.nontrivial(x.cur); x.count("settings_cases");
    libgrpp_set_default_parameters(); auto d = libgrpp_params;
    libgrpp_set_radial_tolerance_(&t[0]); auto p1 = libgrpp_params; libgrpp_set_default_parameters(); libgrpp_set_radial_tolerance(t[0]); if (memcmp(&p1, &libgrpp_params, sizeof p1)) x.fail("set_radial_tolerance_ differs from the C function");
    libgrpp_set_default_parameters(); libgrpp_set_angular_screening_tolerance_(&t[1]); p1 = libgrpp_params; libgrpp_set_default_parameters(); libgrpp_set_angular_screening_tolerance(t[1]); if (memcmp(&p1, &libgrpp_params, sizeof p1)) x.fail("set_angular_screening_tolerance_ differs from the C function");
    libgrpp_set_default_parameters(); libgrpp_set_modified_bessel_tolerance_(&t[2]); p1 = libgrpp_params; libgrpp_set_default_parameters(); libgrpp_set_modified_bessel_tolerance(t[2]); if (memcmp(&p1, &libgrpp_params, sizeof p1)) x.fail("set_modified_bessel_tolerance_ differs from the C function");
    for (I4 k = 0; k < 2; k++) { libgrpp_set_default_parameters(); libgrpp_set_cartesian_order_(&k); p1 = libgrpp_params; libgrpp_set_default_parameters(); libgrpp_set_cartesian_order(k); if (memcmp(&p1, &libgrpp_params, sizeof p1)) x.fail("set_cartesian_order_ differs from the C function"); }
    libgrpp_set_radial_tolerance(t[0]); libgrpp_set_modified_bessel_tolerance(t[1]); libgrpp_set_default_parameters_(); if (memcmp(&d, &libgrpp_params, sizeof d)) x.fail("set_default_parameters_ does not restore the defaults");
    libgrpp_finalize_(); if (libgrpp_is_initialized()) x.fail("finalize_ leaves the library initialised"); libgrpp_init_(); if (!libgrpp_is_initialized()) x.fail("init_ does not initialise");
}
static void c25(Ctx &x)
{
    Rng g = x.rng(); libgrpp_set_default_parameters(); std::vector<void *> bl; auto al = heap(bl);
    static const int F[] = {OVL, KIN, MOM, T1, T2, SO, OC, NPT, NNUM, NBALL, NGAUSS, NFERMI, NBUB, GT1, GT2, GSO}; int w = (int) (x.idx % 20);
    if (w == 16) { scalars(x, g); return; }
    if (w == 17) { settings(x, g); return; }
    if (w >= 18) {      // services without a C counterpart
        GenOpt o; o.Lmax = 8; o.ncmax = 6; Case c = gen_case(g, OVL, o); x.desc(js(c)); x.nontrivial(x.cur); x.count("elements_and_norms");
        auto M = run(c); auto T = tolerances(c); auto ca = cart_order(c.A.L), cb = cart_order(c.B.L); FArgs f = fort_args(al, c); int nB = (int) cb.size();
        for (size_t i = 0; i < ca.size() && !x.case_failed; i++) for (int j = 0; j < nB; j++) {
            I4 p[3] = {ca[i][0], ca[i][1], ca[i][2]}, q[3] = {cb[j][0], cb[j][1], cb[j][2]}; double v = NAN;
            evaluate_overlap_integral_contracted_(f.A.o, &p[0], &p[1], &p[2], f.A.n, f.A.c, f.A.a, f.B.o, &q[0], &q[1], &q[2], f.B.n, f.B.c, f.B.a, &v); x.count("single_overlaps");
            if (!(std::fabs(v - M[0][i * nB + j]) <= 2 * (double) T[0].tol[i * nB + j])) { x.fail(sf("evaluate_overlap_integral_contracted_(%d%d%d,%d%d%d) is %.17g, element of the block %.17g", p[0], p[1], p[2], q[0], q[1], q[2], v, M[0][i * nB + j])); break; }
        }
        Sh s = c.A; for (auto &v : s.c) v = std::fabs(v) + 0.01; FSh fs = fsh(al, s); double nv = NAN; radial_gto_norm_factor_(fs.L, fs.n, fs.c, fs.a, &nv);
        Case d; d.fn = OVL; d.A = d.B = s; auto S = run(d); double df = 1; for (int k = 2 * s.L - 1; k > 1; k -= 2) df *= k; double want = std::sqrt(df / S[0][0]);
        if (!(std::fabs(nv / want - 1) < 1e-12)) x.fail(sf("radial_gto_norm_factor_ is %.17g, from the C overlap %.17g", nv, want));
        for (void *p : bl) free(p);
        return;
    }
    int fn = F[w]; GenOpt o = opt_for(g, fn); o.geo = (int) (x.idx / 20 % NGEO); if (!is_semi(fn) && !is_nuc(fn)) o.ncmax = 25; Case c = gen_case(g, fn, o);
    if (is_nuc(fn) && g.chance(0.1)) c.Z = -c.Z;
    // settings of the process apply to both
    int order = g.chance(0.2); if (order) libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE); if (g.chance(0.15)) libgrpp_set_radial_tolerance(1e-6);
    x.desc(js(c)); x.count(std::string("fn_") + FN_NAME[fn]);
    auto M = run(c); if (maxabs(M) > 1e-13) x.nontrivial(x.cur); int k = FN_NOUT[fn], n = c.size();
    FArgs f = fort_args(al, c);
    for (int v = 0; v < (is_nuc(fn) ? 2 : 1) && !x.case_failed; v++) {
        std::vector<Mat> N(k, Mat(n + 2, fn == OC ? 0.0 : 777.0)); std::vector<double *> po; for (auto &m : N) { m[0] = m[n + 1] = -55; po.push_back(m.data() + 1); }
        fort_call(f, po.data(), v); x.count("blocks", k); x.count("elements", (double) k * n);
        for (auto &m : N) { if (m[0] != -55 || m[n + 1] != -55) x.fail(std::string(FN_NAME[fn]) + " (Fortran interface) writes beside its output"); m.erase(m.begin()); m.pop_back(); }
        std::string wh;
        if (fn == OC) { auto T = tolerances(c); for (int m = 0; m < k && !x.case_failed; m++) { std::vector<ld> t(n); for (int i = 0; i < n; i++) t[i] = 2 * T[m].tol[i]; cmp_tol(x, sf("pieces of the outercore operator [%d]", m), N[m], to_ld(M[m]), t); } }
        else if (!same_bits(M, N, &wh)) x.fail(std::string(FN_NAME[fn]) + (v ? " (model-specific Fortran entry)" : " (Fortran entry)") + " differs from the C interface: " + wh);
    }
    for (void *p : bl) free(p);
    libgrpp_set_default_parameters();
}
static Reg r25("C25", c25, lib_init);
