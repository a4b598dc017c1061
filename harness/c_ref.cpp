// Monitors that compare every returned element with an independent reference value.
#include "mon.hpp"

static void lib_init(Ctx &) { libgrpp_init(); }

// run the case, compare with the reference
static void against_reference(Ctx &x, const Case &c, const std::string &probe = "")
{
    x.desc(js(c));
    auto M = run(c);
    auto R = reference(c);
    double v = 0; for (auto &r : R) for (ld e : r.v) v = std::max(v, (double) fabsl(e));
    if (v > 1e-13) x.nontrivial(x.cur);
    x.count(std::string("fn_") + FN_NAME[c.fn]); x.maxi("max_L", std::max(c.A.L, c.B.L));
    cmp_ref(x, FN_NAME[c.fn], M, R, probe);
}
static Case sys_case(Ctx &x, Rng &g, int fn, GenOpt o, int Lgrid)
{
    // half of the cases sweep (L_A, L_B) systematically, the rest is free
    long i = x.idx;
    if (Lgrid > 0 && i % 2 == 0) { long k = i / 2; o.LA = (int) (k % Lgrid); o.LB = (int) (k / Lgrid % Lgrid); }
    o.geo = (int) ((i / 2 + i / 338) % NGEO);
    return gen_case(g, fn, o);
}

// ---- C01 overlap, kinetic, momentum
static void c01(Ctx &x)
{
    Rng g = x.rng(); GenOpt o; o.Lmax = 10; o.amax = g.chance(0.3) ? 1e5 : 100; o.dmax = g.chance(0.2) ? 15 : 4;
    static const int F[] = {OVL, KIN, MOM};
    Case c = sys_case(x, g, F[x.idx % 3], o, 11);
    against_reference(x, c);
}
static Reg r01("C01", c01, lib_init);

// ---- C02 local potentials
static void c02(Ctx &x)
{
    Rng g = x.rng(); GenOpt o; o.Lmax = 10; o.lmax = 10; o.amax = g.chance(0.2) ? 1e5 : 100; o.dmax = g.chance(0.2) ? 15 : 4; o.ncmax = 8;
    Case c = sys_case(x, g, T1, o, 11);
    double u = g.u();
    if (u < 0.08) for (auto &a : c.U.a) a = 0;                       // bare powers of r
    else if (u < 0.16) for (auto &a : c.U.a) a = g.logu(100, 1e5);   // very sharp
    else if (u < 0.24) for (auto &a : c.U.a) a = g.logu(1e-4, 1e-1); // very diffuse
    else if (u < 0.5) {        // aim at a chosen value of the argument p |P - C|^2 of the auxiliary functions (switches between their branches)
        double p = c.A.a[0] + c.B.a[0] + (c.U.a.empty() ? 0 : c.U.a[0]), T = g.chance(0.5) ? g.uni(0, 45) : g.logu(1e-12, 2e3);
        V3 P = (1 / p) * (c.A.a[0] * (c.A.o - c.C) + c.B.a[0] * (c.B.o - c.C)); double r = nrm(P), want = std::sqrt(T / p);
        if (r > 1e-6) { V3 s = ((want - r) / r) * P; s = (p / (c.A.a[0] + c.B.a[0])) * s; c.A.o = c.A.o + s; c.B.o = c.B.o + s; }
    }
    if (c.A.L + c.B.L > 12) { if (c.A.c.size() > 2) { c.A.c.resize(2); c.A.a.resize(2); } if (c.B.c.size() > 2) { c.B.c.resize(2); c.B.a.resize(2); } }
    against_reference(x, c);
}
static Reg r02("C02", c02, lib_init);

// ---- C03, C04 semilocal
static void shape_semilocal(Rng &g, Case &c)
{
    double u = g.u();
    if (u < 0.06) for (auto &a : c.U.a) a = g.logu(100, 3000);
    else if (u < 0.12) for (auto &a : c.U.a) a = g.logu(1e-3, 1e-1);
}
static void probe_tight(Ctx &x, int fn, double d, double alpha, const char *id, const std::vector<double> &prm = {})
{
    Case c; c.fn = fn; c.A.o = {{0, 0, d}}; c.A.c = {1}; c.A.a = {alpha}; c.A.L = 1; c.B = c.A; c.B.L = 0; c.C = {{0, 0, 0}}; c.Z = 1; c.prm = prm;
    c.U.L = 1; c.U.J = 1; c.U.n = {2}; c.U.c = {1}; c.U.a = {0.005};
    against_reference(x, c, id);
}
static const struct { double d, a; const char *id; } TIGHT[] = {{20, 100, "tight-far d=20 alpha=100"}, {20, 1e3, "tight-far d=20 alpha=1000"}, {12, 1e4, "tight-far d=12 alpha=10000"}};
static void c03(Ctx &x)
{
    Rng g = x.rng();
    if (x.idx < 3) { probe_tight(x, T2, TIGHT[x.idx].d, TIGHT[x.idx].a, TIGHT[x.idx].id); return; }
    GenOpt o; o.Lmax = 10; o.lmax = 10; o.dmax = g.chance(0.1) ? 9 : 4; o.budget = 2500;
    long k = x.idx / 2; if (x.idx % 2 == 0) { o.l = (int) (k % 6); }
    o.geo = (int) (k % NGEO);
    Case c = gen_case(g, T2, o); shape_semilocal(g, c);
    against_reference(x, c);
}
static Reg r03("C03", c03, lib_init);
static void c04(Ctx &x)
{
    Rng g = x.rng();
    if (x.idx < 3) { probe_tight(x, SO, TIGHT[x.idx].d, TIGHT[x.idx].a, TIGHT[x.idx].id); return; }
    GenOpt o; o.Lmax = 10; o.lmax = 10; o.dmax = g.chance(0.1) ? 9 : 4; o.budget = 2500;
    long k = x.idx / 2; if (x.idx % 2 == 0) { o.l = (int) (k % 6); }
    o.geo = (int) (k % NGEO);
    Case c = gen_case(g, SO, o); shape_semilocal(g, c);
    against_reference(x, c);
}
static Reg r04("C04", c04, lib_init);

// ---- C05 outercore
static void c05(Ctx &x)
{
    Rng g = x.rng(); GenOpt o; o.Lmax = g.chance(0.15) ? 10 : 5; o.lmax = g.chance(0.1) ? 10 : 5; o.ncmax = 6;
    if (x.idx % 3 == 0) o.l = (int) (x.idx / 3 % 6);
    o.geo = (int) (x.idx % NGEO);
    Case c = gen_case(g, OC, o);
    against_reference(x, c);
    if (x.case_failed) return;
    // the stored centres of the outercore functions play no role
    Case d = c; for (auto &q : d.oc) q.sh.o = d.C + g.uni(0, 5) * rand_dir(g);
    std::string w;
    if (!same_bits(run(c), run(d), &w)) x.fail("the centre stored in outercore shells changes the result: " + w);
}
static Reg r05("C05", c05, lib_init);

// ---- C07 nuclear attraction
static void wrapper_call(const Case &c, Objs &ob, double *o)
{
    const double *p = ob.prm;
    switch (c.fn) {
    case NPT: libgrpp_nuclear_attraction_integrals_point_charge(ob.A, ob.B, ob.C, c.Z, o); break;
    case NBALL: libgrpp_nuclear_attraction_integrals_charged_ball(ob.A, ob.B, ob.C, c.Z, p[0], o); break;
    case NGAUSS: libgrpp_nuclear_attraction_integrals_gaussian_model(ob.A, ob.B, ob.C, c.Z, p[0], o); break;
    case NFERMI: libgrpp_nuclear_attraction_integrals_fermi_model(ob.A, ob.B, ob.C, c.Z, p[0], p[1], o); break;
    case NBUB: libgrpp_nuclear_attraction_integrals_fermi_bubble_model(ob.A, ob.B, ob.C, c.Z, p[0], p[1], p[2], o); break;
    }
}
static void c07(Ctx &x)
{
    Rng g = x.rng();
    if (x.idx < 3) { probe_tight(x, NNUM, TIGHT[x.idx].d, TIGHT[x.idx].a, TIGHT[x.idx].id); return; }
    static const int F[] = {NPT, NNUM, NBALL, NGAUSS, NFERMI, NBUB, NPT, NFERMI, NBUB};
    int fn = F[x.idx % 9];
    GenOpt o; o.Lmax = fn == NPT ? 10 : 10; o.budget = 250; o.dmax = g.chance(0.1) ? 9 : 4; o.geo = (int) (x.idx / 9 % NGEO);
    Case c = gen_case(g, fn, o);
    if (g.chance(0.15) && fn >= NBALL) { double s = 1e-4; for (size_t i = 0; i < std::min<size_t>(2, c.prm.size()); i++) c.prm[i] *= s; x.count("shrunk_nuclei"); }
    if (g.chance(0.05)) c.Z = -c.Z;
    against_reference(x, c);
    if (x.case_failed || fn == NNUM) return;
    Objs ob(c); Mat w(c.size(), NAN); wrapper_call(c, ob, w.data());
    auto M = run(c); std::string where;
    if (!same_bits(M, {w}, &where)) x.fail(std::string("model-specific entry point differs from the general one: ") + where);
    x.count("wrapper_comparisons");
}
static Reg r07("C07", c07, lib_init);

// ---- C09 pseudopotential gradients, C10 overlap gradients
static void c09(Ctx &x)
{
    Rng g = x.rng(); static const int F[] = {GT1, GT2, GSO, GOC, GFULL, GT1, GSO, GT2};
    int fn = F[x.idx % 8];
    GenOpt o; o.Lmax = fn == GT1 ? 8 : 6; o.lmax = fn == GOC || fn == GFULL ? 3 : 5; o.ncmax = fn == GT1 || fn == GOC ? 4 : 8; o.budget = 1500; o.geo = (int) (x.idx / 8 % NGEO);
    if (fn == GOC) o.Lmax = 4;
    if (fn == GT1) o.Lmax = g.chance(0.2) ? 8 : 4, o.npmax = 4;
    Case c = gen_case(g, fn, o);
    if (fn == GOC && c.oc.size() > 2) c.oc.resize(2);
    against_reference(x, c);
    if (x.case_failed || x.idx % 4) return;
    // sum over the distinct centres vanishes; no centre at the point: exactly zero
    std::vector<V3> pts; for (const V3 &q : {c.A.o, c.B.o, c.C}) if (std::find(pts.begin(), pts.end(), q) == pts.end()) pts.push_back(q);
    auto tl = reference(c); std::vector<std::vector<ld>> sum(FN_NOUT[fn], std::vector<ld>(c.size(), 0)), tol = sum;
    std::vector<Mat> S(FN_NOUT[fn], Mat(c.size(), 0));
    for (auto &p : pts) { Case d = c; d.P = p; auto M = run(d); GridOpt so; so.scale_only = !(fn == GOC || fn == GFULL); auto R = reference(d, so); for (size_t m = 0; m < M.size(); m++) for (int i = 0; i < c.size(); i++) { S[m][i] += M[m][i]; tol[m][i] += R[m].tol[i]; } }
    for (size_t m = 0; m < S.size(); m++) if (!cmp_tol(x, sf("sum of the gradients over all centres [%d]", (int) m), S[m], sum[m], tol[m])) return;
    Case d = c; d.P = c.C + V3{{7.5, -3.25, 11}};
    if (!(d.P == c.A.o) && !(d.P == c.B.o)) { auto M = run(d); if (!(maxabs(M) == 0)) x.fail(sf("gradient at a point with no centre is not zero: %.3g", maxabs(M))); }
    x.count("sum_rules");
}
static Reg r09("C09", c09, lib_init);
static void c10(Ctx &x)
{
    Rng g = x.rng(); GenOpt o; o.Lmax = 9; o.amax = g.chance(0.2) ? 1e4 : 100;
    Case c = sys_case(x, g, GOVL, o, 10);
    if (g.chance(0.06)) { c.P = c.A.o; c.P[g.i(0, 2)] += g.sgn() * g.logu(1e-8, 1e-2); }
    against_reference(x, c);
    if (x.case_failed || x.idx % 4) return;
    Case a = c, b = c; a.P = c.A.o; b.P = c.B.o; auto Ma = run(a), Mb = run(b); auto T = reference(a);
    if (c.A.o == c.B.o) { if (maxabs(Ma) != 0) x.fail("gradient of a one-centre overlap is not zero"); return; }
    for (int m = 0; m < 3; m++) { std::vector<ld> t(c.size()), w(c.size()); for (int i = 0; i < c.size(); i++) { w[i] = -Mb[m][i]; t[i] = 2 * T[m].tol[i]; } if (!cmp_tol(x, "gradients at the two centres are not opposite", Ma[m], w, t)) return; }
    Case z = c; z.P = c.A.o + V3{{5, 5, 5}}; if (!(z.P == c.B.o) && maxabs(run(z)) != 0) x.fail("gradient at a point with no centre is not zero");
}
static Reg r10("C10", c10, lib_init);
