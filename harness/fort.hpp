// The Fortran-callable interface: declarations, arguments laid out in memory of the caller's choice, calls by family.
#pragma once
#include "model.hpp"
typedef int32_t I4;
#define SHA double *, I4 *, I4 *, double *, double *
extern "C" {
void libgrpp_init_(); void libgrpp_finalize_(); void libgrpp_set_default_parameters_(); void libgrpp_set_radial_tolerance_(const double *); void libgrpp_set_angular_screening_tolerance_(const double *);
void libgrpp_set_modified_bessel_tolerance_(const double *); void libgrpp_set_cartesian_order_(const I4 *);
void libgrpp_type1_integrals_(SHA, SHA, double *, I4 *, I4 *, double *, double *, double *);
void libgrpp_type2_integrals_(SHA, SHA, double *, I4 *, I4 *, I4 *, double *, double *, double *);
void libgrpp_spin_orbit_integrals_(SHA, SHA, double *, I4 *, I4 *, I4 *, double *, double *, double *, double *, double *);
void libgrpp_outercore_potential_integrals_part_1_(SHA, SHA, double *, I4 *, I4 *, I4 *, I4 *, double *, double *, I4 *, double *, double *, double *, double *, double *, double *);
void libgrpp_outercore_potential_integrals_part_2_(SHA, SHA, double *, I4 *, I4 *, I4 *, I4 *, double *, double *, I4 *, double *, double *, I4 *, I4 *, I4 *, I4 *, double *, double *, I4 *, double *, double *, double *, double *, double *, double *);
void libgrpp_type1_integrals_gradient_(SHA, SHA, double *, I4 *, I4 *, double *, double *, double *, double *, double *, double *);
void libgrpp_type2_integrals_gradient_(SHA, SHA, double *, I4 *, I4 *, I4 *, double *, double *, double *, double *, double *, double *);
void libgrpp_spin_orbit_integrals_gradient_(SHA, SHA, double *, I4 *, I4 *, I4 *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *);
void libgrpp_overlap_integrals_(SHA, SHA, double *); void libgrpp_kinetic_energy_integrals_(SHA, SHA, double *); void libgrpp_momentum_integrals_(SHA, SHA, double *, double *, double *);
void libgrpp_nuclear_attraction_integrals_(SHA, SHA, double *, I4 *, I4 *, double *, double *);
void libgrpp_nuclear_attraction_integrals_point_charge_(SHA, SHA, double *, I4 *, double *);
void libgrpp_nuclear_attraction_integrals_charged_ball_(SHA, SHA, double *, I4 *, double *, double *);
void libgrpp_nuclear_attraction_integrals_gaussian_model_(SHA, SHA, double *, I4 *, double *, double *);
void libgrpp_nuclear_attraction_integrals_fermi_model_(SHA, SHA, double *, I4 *, double *, double *, double *);
void libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(SHA, SHA, double *, I4 *, double *, double *, double *, double *);
void evaluate_overlap_integral_contracted_(double *, I4 *, I4 *, I4 *, I4 *, double *, double *, double *, I4 *, I4 *, I4 *, I4 *, double *, double *, double *);
void radial_gto_norm_factor_(I4 *, I4 *, double *, double *, double *);
void libgrpp_estimate_nuclear_rms_radius_johnson_1985_(I4 *, double *); void libgrpp_estimate_nuclear_rms_radius_golovko_2008_(I4 *, double *); void libgrpp_estimate_fermi_model_parameters_(double *, double *, double *, I4 *);
void libgrpp_charge_density_ball_(double *, double *, double *, double *); void libgrpp_charge_density_gaussian_(double *, double *, double *, double *);
void libgrpp_charge_density_fermi_(double *, double *, double *, double *, double *); void libgrpp_charge_density_fermi_bubble_(double *, double *, double *, double *, double *, double *);
void libgrpp_coulomb_potential_point_(double *, double *, double *); void libgrpp_coulomb_potential_ball_(double *, double *, double *, double *); void libgrpp_coulomb_potential_gaussian_(double *, double *, double *, double *);
void libgrpp_coulomb_potential_fermi_(double *, double *, double *, double *, double *); void libgrpp_coulomb_potential_fermi_bubble_(double *, double *, double *, double *, double *, double *);
void libgrpp_rms_radius_fermi_(I4 *, double *, double *, double *); void libgrpp_rms_radius_fermi_bubble_(I4 *, double *, double *, double *, double *);
}
typedef std::function<void *(size_t)> Alloc;
struct FSh { double *o, *c, *a; I4 *L, *n; };
struct FPt { I4 *L, *J, *n, *pw; double *c, *a; };
struct FArgs { int fn; FSh A, B; double *C, *P, *prm; I4 *Z, *model; FPt U; std::vector<FPt> op; std::vector<FSh> os; };
inline double *fd(const Alloc &al, const double *p, size_t n) { double *q = (double *) al(8 * n); if (n) memcpy(q, p, 8 * n); return q; }
inline I4 *fi(const Alloc &al, int v) { I4 *q = (I4 *) al(4); *q = v; return q; }
inline FSh fsh(const Alloc &al, const Sh &s) { FSh f; f.o = fd(al, s.o.data(), 3); f.c = fd(al, s.c.data(), s.c.size()); f.a = fd(al, s.a.data(), s.a.size()); f.L = fi(al, s.L); f.n = fi(al, (int) s.c.size()); return f; }
inline FPt fpt(const Alloc &al, const Pt &s) { FPt f; f.L = fi(al, s.L); f.J = fi(al, s.J); f.n = fi(al, (int) s.c.size()); f.pw = (I4 *) al(4 * s.n.size()); for (size_t i = 0; i < s.n.size(); i++) f.pw[i] = s.n[i]; f.c = fd(al, s.c.data(), s.c.size()); f.a = fd(al, s.a.data(), s.a.size()); return f; }
inline bool has_fort(int fn) { return !(fn == FULL || fn == GOVL || fn == GOC || fn == GFULL); }
inline FArgs fort_args(const Alloc &al, const Case &c)
{
    FArgs f; f.fn = c.fn; f.A = fsh(al, c.A); f.B = fsh(al, c.B); f.C = fd(al, c.C.data(), 3); f.P = fd(al, c.P.data(), 3); f.prm = fd(al, c.prm.data(), c.prm.size()); f.Z = fi(al, c.Z); f.model = fi(al, is_nuc(c.fn) ? nuc_model(c.fn) : 0);
    f.U = fpt(al, c.U); for (auto &o : c.oc) { f.op.push_back(fpt(al, o.pot)); f.os.push_back(fsh(al, o.sh)); }
    return f;
}
#define FS(s) (s).o, (s).L, (s).n, (s).c, (s).a
// variant 1: the model-specific nuclear entry points
inline void fort_call(const FArgs &f, double **o, int variant = 0)
{
    FPt U = f.U; double *p = f.prm;
    switch (f.fn) {
    case OVL: libgrpp_overlap_integrals_(FS(f.A), FS(f.B), o[0]); break;
    case KIN: libgrpp_kinetic_energy_integrals_(FS(f.A), FS(f.B), o[0]); break;
    case MOM: libgrpp_momentum_integrals_(FS(f.A), FS(f.B), o[0], o[1], o[2]); break;
    case T1: libgrpp_type1_integrals_(FS(f.A), FS(f.B), f.C, U.n, U.pw, U.c, U.a, o[0]); break;
    case T2: libgrpp_type2_integrals_(FS(f.A), FS(f.B), f.C, U.L, U.n, U.pw, U.c, U.a, o[0]); break;
    case SO: libgrpp_spin_orbit_integrals_(FS(f.A), FS(f.B), f.C, U.L, U.n, U.pw, U.c, U.a, o[0], o[1], o[2]); break;
    case GT1: libgrpp_type1_integrals_gradient_(FS(f.A), FS(f.B), f.C, U.n, U.pw, U.c, U.a, f.P, o[0], o[1], o[2]); break;
    case GT2: libgrpp_type2_integrals_gradient_(FS(f.A), FS(f.B), f.C, U.L, U.n, U.pw, U.c, U.a, f.P, o[0], o[1], o[2]); break;
    case GSO: libgrpp_spin_orbit_integrals_gradient_(FS(f.A), FS(f.B), f.C, U.L, U.n, U.pw, U.c, U.a, f.P, o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], o[8]); break;
    case OC:      // the caller clears and accumulates
        for (size_t i = 0; i < f.op.size(); i++) {
            const FPt &u = f.op[i]; const FSh &s = f.os[i];
            libgrpp_outercore_potential_integrals_part_1_(FS(f.A), FS(f.B), f.C, u.L, u.J, u.n, u.pw, u.c, u.a, s.n, s.c, s.a, o[0], o[1], o[2], o[3]);
            for (size_t j = 0; j < f.op.size(); j++) { const FPt &v = f.op[j]; const FSh &t = f.os[j];
                libgrpp_outercore_potential_integrals_part_2_(FS(f.A), FS(f.B), f.C, u.L, u.J, u.n, u.pw, u.c, u.a, s.n, s.c, s.a, v.L, v.J, v.n, v.pw, v.c, v.a, t.n, t.c, t.a, o[0], o[1], o[2], o[3]); }
        }
        break;
    case NPT: case NNUM: case NBALL: case NGAUSS: case NFERMI: case NBUB:
        if (!variant || f.fn == NNUM) libgrpp_nuclear_attraction_integrals_(FS(f.A), FS(f.B), f.C, f.Z, f.model, p, o[0]);
        else if (f.fn == NPT) libgrpp_nuclear_attraction_integrals_point_charge_(FS(f.A), FS(f.B), f.C, f.Z, o[0]);
        else if (f.fn == NBALL) libgrpp_nuclear_attraction_integrals_charged_ball_(FS(f.A), FS(f.B), f.C, f.Z, p, o[0]);
        else if (f.fn == NGAUSS) libgrpp_nuclear_attraction_integrals_gaussian_model_(FS(f.A), FS(f.B), f.C, f.Z, p, o[0]);
        else if (f.fn == NFERMI) libgrpp_nuclear_attraction_integrals_fermi_model_(FS(f.A), FS(f.B), f.C, f.Z, p, p + 1, o[0]);
        else libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(FS(f.A), FS(f.B), f.C, f.Z, p, p + 1, p + 2, o[0]);
        break;
    }
}
