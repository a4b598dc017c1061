// Executor of cases inside sanitized processes: no random numbers, no library containers other than vectors (for MemorySanitizer).
// x_san FILE: executes the cases of FILE; the number of the case being executed is kept in FILE.at; all caller memory is exactly sized.
#include "ser.hpp"
#include "fort.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECK(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef CHECK
#define CHECK(p, n) (void) 0
#endif
static void outs(std::vector<double *> &o, int k, size_t n, bool zero) { o.clear(); for (int i = 0; i < k; i++) { double *p = (double *) malloc(8 * n); if (zero) memset(p, 0, 8 * n); o.push_back(p); } }
static void done(std::vector<double *> &o, size_t n) { for (double *p : o) { CHECK(p, 8 * n); free(p); } }
static std::vector<void *> *bl; static void *alloc1(size_t n) { void *p = malloc(n); bl->push_back(p); return p; }
template<class T> static T *dup(const std::vector<T> &v) { T *p = (T *) malloc(v.size() * sizeof(T)); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
static libgrpp_shell_t *shell(const Sh &s) { double *c = dup(s.c), *a = dup(s.a), *o = (double *) malloc(24); memcpy(o, s.o.data(), 24); auto *p = libgrpp_new_shell(o, s.L, (int) s.c.size(), c, a); free(c); free(a); free(o); return p; }
static libgrpp_potential_t *pot(const Pt &s) { int *n = dup(s.n); double *c = dup(s.c), *a = dup(s.a); auto *p = libgrpp_new_potential(s.L, s.J, (int) s.c.size(), n, c, a); free(c); free(a); free(n); return p; }
static libgrpp_grpp_t *grpp(const Gr &g)
{
    auto *p = libgrpp_new_grpp(); if (g.has_loc) libgrpp_grpp_set_local_potential(p, pot(g.loc));
    for (auto &q : g.arep) libgrpp_grpp_add_averaged_potential(p, pot(q)); for (auto &q : g.esop) libgrpp_grpp_add_spin_orbit_potential(p, pot(q)); for (auto &q : g.oc) libgrpp_grpp_add_outercore_potential(p, pot(q.pot), shell(q.sh));
    return p;
}
static void chk(libgrpp_shell_t *s) { CHECK(&s->L, sizeof s->L); CHECK(&s->cart_size, sizeof s->cart_size); CHECK(&s->num_primitives, sizeof s->num_primitives); CHECK(s->origin, sizeof s->origin); CHECK(&s->cart_list, sizeof(void *)); CHECK(s->coeffs, 8 * s->num_primitives); CHECK(s->alpha, 8 * s->num_primitives); CHECK(s->cart_list, 12 * s->cart_size); }
static void chk(libgrpp_potential_t *s) { CHECK(&s->L, sizeof s->L); CHECK(&s->J, sizeof s->J); CHECK(&s->num_primitives, sizeof s->num_primitives); CHECK(s->coeffs, 8 * s->num_primitives); CHECK(s->alpha, 8 * s->num_primitives); CHECK(s->powers, 4 * s->num_primitives); }
static void one(const Case &c, int flags)
{
    size_t n = c.size(); int fn = c.fn, k = FN_NOUT[fn], b = base_fn(fn); std::vector<double *> o; Args a;
    a.A = shell(c.A); a.B = flags & 16 ? a.A : shell(c.B); if (flags & 16) n = (size_t) csize(c.A.L) * csize(c.A.L);
    if (flags & 1) { auto *q = libgrpp_shell_deep_copy(a.A); if (a.B == a.A) a.B = q; libgrpp_delete_shell(a.A); a.A = q; }
    chk(a.A); chk(a.B);
    if (b == T1 || b == T2 || b == SO) { a.U = pot(c.U); chk(a.U); if (flags & 2) { auto *q = libgrpp_shrink_potential(a.U); libgrpp_delete_potential(a.U); a.U = q; chk(q); } }
    std::vector<libgrpp_potential_t *> ps; std::vector<libgrpp_shell_t *> ss; if (b == OC) for (auto &q : c.oc) { ps.push_back(pot(q.pot)); ss.push_back(shell(q.sh)); }
    a.noc = (int) ps.size(); a.ocp = dup(ps); a.ocs = dup(ss); if (b == FULL) a.gr = grpp(c.gr);
    a.C = dup(std::vector<double>(c.C.begin(), c.C.end())); a.P = dup(std::vector<double>(c.P.begin(), c.P.end())); a.prm = dup(c.prm); a.Z = c.Z;
    outs(o, k, n, false); raw_call(fn, a, o.data()); done(o, n);
    if (is_nuc(fn) && fn != NNUM) {
        outs(o, 1, n, false); double *m = o[0], *p = a.prm;
        if (fn == NPT) libgrpp_nuclear_attraction_integrals_point_charge(a.A, a.B, a.C, a.Z, m); else if (fn == NBALL) libgrpp_nuclear_attraction_integrals_charged_ball(a.A, a.B, a.C, a.Z, p[0], m);
        else if (fn == NGAUSS) libgrpp_nuclear_attraction_integrals_gaussian_model(a.A, a.B, a.C, a.Z, p[0], m); else if (fn == NFERMI) libgrpp_nuclear_attraction_integrals_fermi_model(a.A, a.B, a.C, a.Z, p[0], p[1], m);
        else libgrpp_nuclear_attraction_integrals_fermi_bubble_model(a.A, a.B, a.C, a.Z, p[0], p[1], p[2], m);
        done(o, n);
    }
    if (flags & 4) { libgrpp_shell_shrink(a.A); libgrpp_shell_mult_normcoef(a.A); chk(a.A); }
    if (a.B != a.A) libgrpp_delete_shell(a.B); libgrpp_delete_shell(a.A); if (a.U) { double v = libgrpp_potential_value(a.U, 0.5); CHECK(&v, 8); libgrpp_delete_potential(a.U); } for (auto *q : ps) libgrpp_delete_potential(q); for (auto *q : ss) libgrpp_delete_shell(q); if (a.gr) libgrpp_delete_grpp(a.gr);
    free(a.ocp); free(a.ocs); free(a.C); free(a.P); free(a.prm);
    if (has_fort(fn) && (flags & 8)) {
        std::vector<void *> blocks; bl = &blocks; FArgs f = fort_args(alloc1, c); n = c.size();
        outs(o, k, n, fn == OC); fort_call(f, o.data(), 1); done(o, n); for (void *p : blocks) free(p);
    }
}
static void scalars(double R, double c, double a, double k, double r, double Z, int A)
{
    double v[24]; int n = 0; I4 iz = (int) Z, L = A % 11, np = 1, zero = 0, e = 0; double one_ = 1, al = 0.7, O[3] = {0, 0, 0};
    v[n++] = libgrpp_charge_density_ball(r, Z, R); v[n++] = libgrpp_charge_density_gaussian(r, Z, R); v[n++] = libgrpp_charge_density_fermi(r, Z, c, a); v[n++] = libgrpp_charge_density_fermi_bubble(r, Z, c, a, k);
    v[n++] = libgrpp_coulomb_potential_point(r, Z); v[n++] = libgrpp_coulomb_potential_ball(r, Z, R); v[n++] = libgrpp_coulomb_potential_gaussian(r, Z, R); v[n++] = libgrpp_coulomb_potential_fermi(r, Z, c, a); v[n++] = libgrpp_coulomb_potential_fermi_bubble(r, Z, c, a, k);
    v[n++] = libgrpp_rms_radius_fermi(iz, c, a); v[n++] = libgrpp_rms_radius_fermi_bubble(iz, c, a, k); v[n++] = libgrpp_estimate_nuclear_rms_radius_johnson_1985(A); v[n++] = libgrpp_estimate_nuclear_rms_radius_golovko_2008(A);
    double c1 = 0, a1 = 0; v[n++] = libgrpp_estimate_fermi_model_parameters(R, &c1, &a1); v[n++] = c1; v[n++] = a1;
    radial_gto_norm_factor_(&L, &np, &one_, &al, &v[n++]); evaluate_overlap_integral_contracted_(O, &L, &zero, &zero, &np, &one_, &al, O, &zero, &zero, &L, &np, &one_, &al, &v[n++]);
    libgrpp_coulomb_potential_fermi_bubble_(&r, &Z, &c, &a, &k, &v[n++]); (void) e;
    CHECK(v, 8 * n);
}
static int gen_rev(int L, int *p) { int n = 0; for (int z = L; z >= 0; z--) for (int y = L - z; y >= 0; y--) { *p++ = L - z - y; *p++ = y; *p++ = z; n++; } return n; }
int main(int argc, char **argv)
{
    int fd = open(argv[1], O_RDONLY); if (fd < 0) return 3;
    long sz = lseek(fd, 0, SEEK_END); lseek(fd, 0, SEEK_SET); std::vector<char> buf(sz); long got = 0; while (got < sz) { long r = read(fd, buf.data() + got, sz - got); if (r <= 0) return 3; got += r; }
    char at[4096]; size_t ln = strlen(argv[1]); memcpy(at, argv[1], ln); memcpy(at + ln, ".at", 4); int af = open(at, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    Des d{buf.data()}; int n = d.i();
    if (libgrpp_is_initialized()) return 4;
    libgrpp_init(); libgrpp_init();
    for (int i = 0; i < n; i++) {
        if (pwrite(af, &i, 4, 0) != 4) return 3;
        int kind = d.i(); double t0 = now();
        if (kind == 0) { int flags = d.i(); double tol = d.d(); libgrpp_set_default_parameters(); libgrpp_set_radial_tolerance(tol); if (flags & 32) libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE); if (flags & 64) libgrpp_set_cartesian_generator(gen_rev); Case c; d.cs(c); one(c, flags); }
        else if (kind == 1) { double v[6]; for (double &q : v) q = d.d(); scalars(v[0], v[1], v[2], v[3], v[4], v[5], d.i()); }
        else { libgrpp_finalize(); libgrpp_init(); Gr g; int m = d.i(); Pt p; d.pt(p); Sh s; d.sh(s); libgrpp_grpp_t *q = libgrpp_new_grpp(); for (int j = 0; j < m; j++) { libgrpp_grpp_add_averaged_potential(q, pot(p)); if (j % 2) libgrpp_grpp_add_spin_orbit_potential(q, pot(p)); if (j % 3 == 0) libgrpp_grpp_add_outercore_potential(q, pot(p), shell(s)); } libgrpp_delete_grpp(q); int *l = libgrpp_generate_shell_cartesians(m % 11); free(l); }
        if (now() - t0 > 2) { char m[64]; int n2 = snprintf(m, sizeof m, "case %d: %.1f s\n", i, now() - t0); if (write(1, m, n2) < 0) return 3; }
    }
    libgrpp_finalize();
    return 0;
}
