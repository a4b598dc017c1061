// One "case" = the arguments of one library call. Evaluation, reference value with tolerance, random generation.
#pragma once
#include "oracle.hpp"

enum Fn { OVL, KIN, MOM, T1, T2, SO, OC, FULL, NPT, NNUM, NBALL, NGAUSS, NFERMI, NBUB, GOVL, GT1, GT2, GSO, GOC, GFULL, NFN };
static const char *FN_NAME[] = {"overlap", "kinetic", "momentum", "type1", "type2", "spin_orbit", "outercore", "full", "nuc_point", "nuc_point_num", "nuc_ball",
                                "nuc_gauss", "nuc_fermi", "nuc_bubble", "overlap_gradient", "type1_gradient", "type2_gradient", "spin_orbit_gradient",
                                "outercore_gradient", "full_gradient"};
static const int FN_NOUT[] = {1, 1, 3, 1, 1, 3, 4, 4, 1, 1, 1, 1, 1, 1, 3, 3, 3, 9, 12, 12};

// order of the outputs: vector index is listed as documented; gradients: for every matrix (arep, so_x, so_y, so_z) the three coordinates
inline bool is_nuc(int f) { return f >= NPT && f <= NBUB; }
inline bool is_grad(int f) { return f >= GOVL; }
inline bool is_semi(int f) { return f == T2 || f == SO || f == OC || f == FULL || f == GT2 || f == GSO || f == GOC || f == GFULL; }
inline int base_fn(int f) { switch (f) { case GOVL: return OVL; case GT1: return T1; case GT2: return T2; case GSO: return SO; case GOC: return OC; case GFULL: return FULL; } return f; }
inline int nuc_model(int f) { static const int m[] = {0, 5, 1, 2, 3, 4}; return m[f - NPT]; }
inline int nuc_nprm(int f) { static const int m[] = {0, 0, 1, 1, 2, 3}; return m[f - NPT]; }

struct Case {
    int fn = 0;
    Sh A, B; V3 C{{0, 0, 0}}, P{{0, 0, 0}};
    Pt U; std::vector<Oc> oc; Gr gr;
    int Z = 1; std::vector<double> prm;
    int size() const { return csize(A.L) * csize(B.L); }
};

inline std::string js(const Case &c)
{
    std::string s = std::string("{\"fn\":\"") + FN_NAME[c.fn] + "\",\"A\":" + js(c.A) + ",\"B\":" + js(c.B);
    int b = base_fn(c.fn);
    if (b >= T1) s += ",\"C\":" + js(c.C);
    if (b == T1 || b == T2 || b == SO) s += ",\"U\":" + js(c.U);
    if (b == OC) s += ",\"oc\":" + js(c.oc);
    if (b == FULL) s += ",\"gr\":" + js(c.gr);
    if (is_nuc(c.fn)) s += ",\"Z\":" + std::to_string(c.Z) + ",\"prm\":" + js(c.prm);
    if (is_grad(c.fn)) s += ",\"P\":" + js(c.P);
    return s + "}";
}

// raw call: all pointers given; out has FN_NOUT entries
struct Args {
    libgrpp_shell_t *A = nullptr, *B = nullptr; double *C = nullptr, *P = nullptr; libgrpp_potential_t *U = nullptr;
    int noc = 0; libgrpp_potential_t **ocp = nullptr; libgrpp_shell_t **ocs = nullptr; libgrpp_grpp_t *gr = nullptr;
    int Z = 0; double *prm = nullptr;
};

inline void raw_call(int fn, const Args &a, double **o)
{
    switch (fn) {
    case OVL: libgrpp_overlap_integrals(a.A, a.B, o[0]); break;
    case KIN: libgrpp_kinetic_energy_integrals(a.A, a.B, o[0]); break;
    case MOM: libgrpp_momentum_integrals(a.A, a.B, o[0], o[1], o[2]); break;
    case T1: libgrpp_type1_integrals(a.A, a.B, a.C, a.U, o[0]); break;
    case T2: libgrpp_type2_integrals(a.A, a.B, a.C, a.U, o[0]); break;
    case SO: libgrpp_spin_orbit_integrals(a.A, a.B, a.C, a.U, o[0], o[1], o[2]); break;
    case OC: libgrpp_outercore_potential_integrals(a.A, a.B, a.C, a.noc, a.ocp, a.ocs, o[0], o[1], o[2], o[3]); break;
    case FULL: libgrpp_full_grpp_integrals(a.A, a.B, a.gr, a.C, o[0], o[1], o[2], o[3]); break;
    case NPT: case NNUM: case NBALL: case NGAUSS: case NFERMI: case NBUB:
        libgrpp_nuclear_attraction_integrals(a.A, a.B, a.C, a.Z, nuc_model(fn), a.prm, o[0]); break;
    case GOVL: libgrpp_overlap_integrals_gradient(a.A, a.B, a.P, o); break;
    case GT1: libgrpp_type1_integrals_gradient(a.A, a.B, a.C, a.U, a.P, o); break;
    case GT2: libgrpp_type2_integrals_gradient(a.A, a.B, a.C, a.U, a.P, o); break;
    case GSO: libgrpp_spin_orbit_integrals_gradient(a.A, a.B, a.C, a.U, a.P, o, o + 3, o + 6); break;
    case GOC: libgrpp_outercore_potential_integrals_gradient(a.A, a.B, a.C, a.noc, a.ocp, a.ocs, a.P, o, o + 3, o + 6, o + 9); break;
    case GFULL: libgrpp_full_grpp_integrals_gradient(a.A, a.B, a.gr, a.C, a.P, o, o + 3, o + 6, o + 9); break;
    }
}

// objects of a case, kept alive for one or more calls
struct Objs {
    libgrpp_shell_t *A, *B; libgrpp_potential_t *U = nullptr; LOc *oc = nullptr; LGr *gr = nullptr; double C[3], P[3], prm[8]; int Z;
    explicit Objs(const Case &c)
    {
        A = new_lsh(c.A); B = new_lsh(c.B);
        int b = base_fn(c.fn);
        if (b == T1 || b == T2 || b == SO) U = new_lpt(c.U);
        if (b == OC) oc = new LOc(c.oc);
        if (b == FULL) gr = new LGr(c.gr);
        for (int i = 0; i < 3; i++) { C[i] = c.C[i]; P[i] = c.P[i]; }
        for (int i = 0; i < 8; i++) prm[i] = i < (int) c.prm.size() ? c.prm[i] : 0;
        Z = c.Z;
    }
    Objs(const Objs &) = delete;
    ~Objs() { libgrpp_delete_shell(A); libgrpp_delete_shell(B); if (U) libgrpp_delete_potential(U); delete oc; delete gr; }
    Args args()
    {
        Args a; a.A = A; a.B = B; a.C = C; a.P = P; a.U = U; a.Z = Z; a.prm = prm;
        if (oc) { a.noc = oc->n(); a.ocp = oc->pots.data(); a.ocs = oc->shells.data(); }
        if (gr) a.gr = gr->p;
        return a;
    }
};

inline std::vector<Mat> run_on(int fn, const Args &a, int n)
{
    int k = FN_NOUT[fn];
    std::vector<Mat> M(k, Mat(n, NAN)); std::vector<double *> o(k);
    for (int i = 0; i < k; i++) o[i] = M[i].data();
    raw_call(fn, a, o.data());
    return M;
}
inline std::vector<Mat> run(const Case &c) { Objs o(c); return run_on(c.fn, o.args(), c.size()); }

// ---------------------------------------------------------------- reference values and tolerances
struct RefT { std::vector<ld> v, tol; };

inline double floor_semi(const Sh &A, const Sh &B, const V3 &C, int extra)
{
    double dA = nrm(A.o - C), dB = nrm(B.o - C);
    return 16 * M_PI * M_PI * std::pow(1 + dA, A.L + extra) * std::pow(1 + dB, B.L + extra);
}
struct TolK {      // tolerance constants, in units of the scales of the oracle
    double okm = 3e-12, loc = 3e-12, semi = 2e-14, semi_floor = 3e-15, so = 1e-13, so_floor = 2e-14, oc = 2e-13, nuc = 1e-12, nuc_floor = 1e-13;
};
static TolK TK;

inline std::function<double(double)> nuc_potential(int fn, int Z, const std::vector<double> &p, std::vector<double> &br, double &sharp);

// slots wanted by the gradient: list of (slotA, slotB, sign)
struct SlotSum { std::vector<std::array<int, 2>> pr; std::vector<double> sg, wt; };   // sg: weight of the value, wt: weight of the tolerance
inline SlotSum grad_slots(const Case &c, int k, bool has_C)
{
    SlotSum s; bool a = c.A.o == c.P, b = c.B.o == c.P, q = has_C && c.C == c.P;
    double wa = (a ? 1 : 0) - (q ? 1 : 0), wb = (b ? 1 : 0) - (q ? 1 : 0);
    if (a || q) { s.pr.push_back({{k, 0}}); s.sg.push_back(wa); s.wt.push_back((a ? 1 : 0) + (q ? 1 : 0)); }
    if (b || q) { s.pr.push_back({{0, k}}); s.sg.push_back(wb); s.wt.push_back((b ? 1 : 0) + (q ? 1 : 0)); }
    return s;
}

inline RefT zero_ref(int n) { RefT r; r.v.assign(n, 0); r.tol.assign(n, 0); return r; }
inline void add_ref(RefT &r, const Ref &x, double f, double k, double fl = 0, double wt = -1) { for (size_t i = 0; i < r.v.size(); i++) { r.v[i] += f * x.v[i]; r.tol[i] += 1e-24 + (wt < 0 ? std::fabs(f) : wt) * (k * x.s[i] + fl); } }

inline std::vector<RefT> reference(const Case &c, const GridOpt &o = GridOpt())
{
    int n = c.size(), no = FN_NOUT[c.fn], b = base_fn(c.fn);
    std::vector<RefT> R(no, zero_ref(n));
    bool g = is_grad(c.fn);
    auto local = [&](const Pt &U, int off, double f) {
        if (!g) { add_ref(R[off], ref_local(c.A, c.B, c.C, U), f, TK.loc); return; }
        for (int k = 1; k <= 3; k++) { SlotSum s = grad_slots(c, k, true); for (size_t i = 0; i < s.pr.size(); i++) add_ref(R[off + k - 1], ref_local(c.A, c.B, c.C, U, s.pr[i][0], s.pr[i][1]), f * s.sg[i], TK.loc, 0, std::fabs(f) * s.wt[i]); }
    };
    auto semi = [&](const Pt &U, bool ar, bool so, int off_ar, int off_so, double f_so) {
        double fs = floor_semi(c.A, c.B, c.C, g ? 1 : 0), fl = TK.semi_floor * fs, flso = TK.so_floor * fs;
        double cs = 0; for (double x : U.c) cs += std::fabs(x);
        if (cs == 0) return;
        if (!g) {
            auto r = ref_semilocal(c.A, c.B, c.C, U, {{0, 0}}, ar, so, o);
            if (ar) add_ref(R[off_ar], r.arep[0], 1, TK.semi, fl);
            if (so) for (int e = 0; e < 3; e++) add_ref(R[off_so + e], r.so[0][e], f_so, TK.so, flso);
            return;
        }
        std::vector<std::pair<int, int>> pr; std::vector<int> kk; std::vector<double> sg, wt;
        for (int k = 1; k <= 3; k++) { SlotSum s = grad_slots(c, k, true); for (size_t i = 0; i < s.pr.size(); i++) { pr.push_back({s.pr[i][0], s.pr[i][1]}); kk.push_back(k); sg.push_back(s.sg[i]); wt.push_back(s.wt[i]); } }
        if (pr.empty()) return;
        auto r = ref_semilocal(c.A, c.B, c.C, U, pr, ar, so, o);
        for (size_t i = 0; i < pr.size(); i++) {
            if (ar) add_ref(R[off_ar + kk[i] - 1], r.arep[i], sg[i], TK.semi, fl, wt[i]);
            if (so) for (int e = 0; e < 3; e++) add_ref(R[off_so + 3 * e + kk[i] - 1], r.so[i][e], sg[i] * f_so, TK.so, flso, wt[i] * f_so);
        }
    };
    auto outer = [&](const std::vector<Oc> &oc) {
        if (oc.empty()) return;
        if (!g) {
            auto r = ref_outercore(c.A, c.B, c.C, oc, {{0, 0}}, o);
            add_ref(R[0], r.arep[0], 1, TK.oc); for (int e = 0; e < 3; e++) add_ref(R[1 + e], r.so[0][e], 1, TK.oc);
            return;
        }
        std::vector<std::pair<int, int>> pr; std::vector<int> kk; std::vector<double> sg, wt;
        for (int k = 1; k <= 3; k++) { SlotSum s = grad_slots(c, k, true); for (size_t i = 0; i < s.pr.size(); i++) { pr.push_back({s.pr[i][0], s.pr[i][1]}); kk.push_back(k); sg.push_back(s.sg[i]); wt.push_back(s.wt[i]); } }
        if (pr.empty()) return;
        auto r = ref_outercore(c.A, c.B, c.C, oc, pr, o);
        for (size_t i = 0; i < pr.size(); i++) {
            add_ref(R[kk[i] - 1], r.arep[i], sg[i], TK.oc, 0, wt[i]);
            for (int e = 0; e < 3; e++) add_ref(R[3 + 3 * e + kk[i] - 1], r.so[i][e], sg[i], TK.oc, 0, wt[i]);
        }
    };
    switch (b) {
    case OVL:
        if (!g) add_ref(R[0], ref_okm(c.A, c.B, 0), 1, TK.okm);
        else for (int k = 1; k <= 3; k++) { SlotSum s = grad_slots(c, k, false); if (s.pr.empty()) continue; Ref ra = ref_okm(c.A, c.B, 0, k, 0), rb = ref_okm(c.A, c.B, 0, 0, k);   // either centre may be differentiated
            for (size_t i = 0; i < ra.s.size(); i++) ra.s[i] = rb.s[i] = ra.s[i] + rb.s[i];
            for (size_t i = 0; i < s.pr.size(); i++) add_ref(R[k - 1], s.pr[i][0] ? ra : rb, s.sg[i], TK.okm); }
        break;
    case KIN: add_ref(R[0], ref_okm(c.A, c.B, 1), 1, TK.okm); break;
    case MOM: for (int k = 0; k < 3; k++) add_ref(R[k], ref_okm(c.A, c.B, 2 + k), 1, TK.okm); break;
    case T1: local(c.U, 0, 1); break;
    case T2: semi(c.U, true, false, 0, 0, 1); break;
    case SO: semi(c.U, false, true, 0, 0, 1); break;
    case OC: outer(c.oc); break;
    case FULL:
        if (c.gr.has_loc) local(c.gr.loc, 0, 1);
        for (auto &p : c.gr.arep) semi(p, true, false, 0, 0, 1);
        for (auto &p : c.gr.esop) semi(p, false, true, 0, g ? 3 : 1, 2.0 / (2 * p.L + 1));
        outer(c.gr.oc);
        break;
    default: {
        Pt U; U.n = {1}; U.c = {-(double) c.Z}; U.a = {0};
        if (c.fn == NPT) { add_ref(R[0], ref_local(c.A, c.B, c.C, U), 1, TK.loc); break; }
        std::vector<double> br; double sharp = 0;
        double ca = 0, cb = 0; for (size_t i = 0; i < c.A.c.size(); i++) ca += std::fabs(c.A.c[i]); for (size_t i = 0; i < c.B.c.size(); i++) cb += std::fabs(c.B.c[i]);
        double nfl = TK.nuc_floor * ca * cb * 4 * M_PI * std::pow(1 + nrm(c.A.o - c.C), c.A.L) * std::pow(1 + nrm(c.B.o - c.C), c.B.L);
        auto V = nuc_potential(c.fn, c.Z, c.prm, br, sharp);
        if (c.fn == NNUM && !o.scale_only) {   // same operator: analytic value, scale of the numerical method
            GridOpt so; so.scale_only = true;
            Ref a = ref_local(c.A, c.B, c.C, U), s = ref_radial_local(c.A, c.B, c.C, V, br, sharp, so);
            a.s = s.s; add_ref(R[0], a, 1, TK.nuc, nfl);
        } else add_ref(R[0], ref_radial_local(c.A, c.B, c.C, V, br, sharp, o), 1, c.fn == NBALL ? 1e-10 : TK.nuc, nfl);   // the ball's potential is not smooth at its surface: the radial rule converges slower
    }
    }
    return R;
}
// tolerances only (no quadrature of the projections)
inline std::vector<RefT> tolerances(const Case &c) { GridOpt o; o.scale_only = base_fn(c.fn) != OC && base_fn(c.fn) != FULL; if (base_fn(c.fn) == FULL && c.gr.oc.empty()) o.scale_only = true; return reference(c, o); }

// ---------------------------------------------------------------- nuclear charge distributions (independent potentials by shells of charge)
// potentials of spherical charge clouds: -4 pi [ 1/r int_0^r rho s^2 ds + int_r^inf rho s ds ], tabulated once per parameter set
struct Cloud {
    std::vector<double> x;            // panel edges
    std::vector<double> q, w;         // cumulative charge to edge k, cumulative (from edge k outward) of rho s
    std::function<double(double)> rho; double Q = 0, r2 = 0;
    Cloud(const std::function<double(double)> &f, std::vector<double> edges) : x(edges), rho(f)
    {
        size_t n = x.size(); q.assign(n, 0); w.assign(n, 0);
        for (size_t k = 0; k + 1 < n; k++) { q[k + 1] = q[k] + integ(x[k], x[k + 1], 2); r2 += integ(x[k], x[k + 1], 4); }
        for (size_t k = n - 1; k-- > 0;) w[k] = w[k + 1] + integ(x[k], x[k + 1], 1);
        Q = q[n - 1];
    }
    double integ(double a, double b, int p) const { const GL &g = gl(24); double s = 0; for (int i = 0; i < 24; i++) { double t = a + (b - a) * (double) g.x[i]; s += (double) g.w[i] * rho(t) * std::pow(t, p); } return s * (b - a); }
    double pot(double r, double Z) const     // normalised to charge Z
    {
        if (r >= x.back()) return -Z / r;
        size_t k = std::upper_bound(x.begin(), x.end(), r) - x.begin() - 1;
        double in = q[k] + integ(x[k], r, 2), out = w[k + 1] + integ(r, x[k + 1], 1);
        return -Z / Q * ((r > 0 ? in / r : 0) + out);
    }
};

inline Cloud fermi_cloud(double c, double a, double k)
{
    std::vector<double> e;
    double R = c + 45 * a;
    for (int i = 0; i <= 90; i++) e.push_back(R * i / 90.0);
    e.push_back(c); for (int i = 1; i < 12; i++) { if (c - a * i > 0) e.push_back(c - a * i); e.push_back(c + a * i); }
    std::sort(e.begin(), e.end());
    return Cloud([=](double r) { return (1 + k * r * r / (c * c)) / (1 + std::exp((r - c) / a)); }, e);
}

inline std::function<double(double)> nuc_potential(int fn, int Z, const std::vector<double> &p, std::vector<double> &br, double &sharp)
{
    switch (fn) {
    case NBALL: { double R0 = std::sqrt(5.0 / 3) * p[0]; br = {R0}; sharp = 1 / (R0 * R0); return [=](double r) { return r <= R0 ? -Z / (2 * R0) * (3 - r * r / (R0 * R0)) : -Z / r; }; }
    case NGAUSS: { double xi = 1.5 / (p[0] * p[0]); sharp = xi; return [=](double r) { return r < 1e-9 / std::sqrt(xi) ? -2.0 * Z * std::sqrt(xi / M_PI) : -Z / r * std::erf(std::sqrt(xi) * r); }; }
    case NFERMI: case NBUB: {
        double c = p[0], a = p[1], k = fn == NBUB ? p[2] : 0;
        br = {c / 2, c - 3 * a, c, c + 3 * a, c + 8 * a}; for (auto &x : br) x = std::max(x, c * 0.05);
        sharp = 1 / (a * a);
        auto cl = std::make_shared<Cloud>(fermi_cloud(c, a, k));
        return [=](double r) { return cl->pot(r, Z); };
    }
    default: return [=](double r) { return -Z / r; };
    }
}
