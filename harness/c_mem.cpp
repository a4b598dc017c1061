// Monitors of memory behaviour: inputs in read-only memory (C18), outputs between guards with several contents (C19), ledger of allocations
// (C21), dependence on history (C22). Built with the allocation functions wrapped.
#include "mon.hpp"
#include "fort.hpp"
#include "wrapm.h"
#include <csetjmp>
#include <fcntl.h>

static sigjmp_buf jb; static volatile int armed; static void *volatile fault_addr;
static void on_segv(int s, siginfo_t *i, void *)
{
    if (!armed) { signal(s, SIG_DFL); return; }
    armed = 0; fault_addr = i->si_addr; siglongjmp(jb, s);
}
static void mem_init(Ctx &)
{
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
    wm_arena_init(64 << 20);
    libgrpp_init();
}
// true: completed
template<class F> static bool guarded(F f) { int s = sigsetjmp(jb, 1); if (s) return false; armed = 1; f(); armed = 0; return true; }

// ---------------------------------------------------------------- guarded output buffers
static const size_t PG = 4096, RN = 10;            // pages per output (66 x 66 doubles fit)
struct Region { char *lo; bool left; size_t n; double *p; };
static Region reg[16]; static bool have_reg;
static void regions() { if (have_reg) return; have_reg = true; for (auto &r : reg) { char *m = (char *) mmap(0, (RN + 2) * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); r.lo = m + PG; mprotect(r.lo, RN * PG, PROT_READ | PROT_WRITE); } }
static double *place(Region &r, size_t n, bool left, int pattern, Rng &g)
{
    r.left = left; r.n = n; memset(r.lo, 0xC7, RN * PG);
    r.p = left ? (double *) r.lo : (double *) (r.lo + RN * PG) - n;
    for (size_t i = 0; i < n; i++) switch (pattern) {
        case 0: r.p[i] = NAN; break; case 1: r.p[i] = 1e300; break; case 2: r.p[i] = g.uni(-1, 1); break; case 3: r.p[i] = INFINITY; break; case 4: r.p[i] = -0.0; break; case 5: memset(&r.p[i], 0xFF, 8); break; default: r.p[i] = 0;
    }
    return r.p;
}
static bool slack_ok(const Region &r)
{
    const char *a = r.left ? (char *) (r.p + r.n) : r.lo, *b = r.left ? r.lo + RN * PG : (char *) r.p;
    for (; a < b; a++) if (*(unsigned char *) a != 0xC7) return false;
    return true;
}
static int guard_of(void *a) { for (int i = 0; i < 16; i++) if ((char *) a >= reg[i].lo - PG && (char *) a < reg[i].lo + (RN + 1) * PG) return i; return -1; }

// ---------------------------------------------------------------- C18 inputs are never written
struct RoIn { Args a; FArgs f; };
template<class T> static T *ro_copy(const T *p, size_t n) { T *q = (T *) wm_arena_alloc(n * sizeof(T)); if (n) memcpy(q, p, n * sizeof(T)); return q; }
static libgrpp_shell_t *ro_shell(Rng &g, const Sh &s)
{
    libgrpp_shell_t *p = new_lsh(s); int k = g.i(0, 5);
    if (k == 0) p = libgrpp_shell_deep_copy(p);
    return p;
}
// every object of a case, built by the library itself inside the arena
static Args ro_args(Rng &g, const Case &c)
{
    Args a; wm_arena_begin();
    a.A = ro_shell(g, c.A); a.B = g.chance(0.1) && js(c.A) == js(c.B) ? a.A : ro_shell(g, c.B);
    int b = base_fn(c.fn);
    if (b == T1 || b == T2 || b == SO) a.U = new_lpt(c.U);
    std::vector<libgrpp_potential_t *> ps; std::vector<libgrpp_shell_t *> ss;
    if (b == OC) for (auto &o : c.oc) { ps.push_back(new_lpt(o.pot)); ss.push_back(new_lsh(o.sh)); }
    a.noc = (int) ps.size();
    if (b == FULL) { LGr *gr = new LGr(c.gr); a.gr = gr->p; /* the wrapper object itself is not an input */ }
    wm_arena_end();
    a.ocp = ro_copy(ps.data(), ps.size()); a.ocs = ro_copy(ss.data(), ss.size());
    a.C = ro_copy(c.C.data(), 3); a.P = ro_copy(c.P.data(), 3); a.prm = ro_copy(c.prm.data(), c.prm.size()); a.Z = c.Z;
    return a;
}
static bool ro_call(Ctx &x, const std::string &what, std::function<void()> f)
{
    wm_bad = 0; wm_arena_protect(1);
    bool ok = guarded(f); wm_arena_protect(0);
    x.count("protected_calls");
    if (!ok) { if (wm_in_arena(fault_addr)) x.fail(what + " writes to its input"); else if (guard_of(fault_addr) >= 0) x.fail(what + " accesses memory beside its output"); else x.fail(what + sf(": invalid access at %p", fault_addr)); return false; }
    if (wm_bad) { x.fail(what + " releases or reallocates its input"); return false; }
    return true;
}
static void c18(Ctx &x)
{
    Rng g = x.rng(); libgrpp_set_default_parameters();
    int w = (int) (x.idx % 24);
    wm_arena_reset();
    if (w < 20) {
        int fn = ALLF[w]; GenOpt o = opt_for(g, fn); o.geo = (int) (x.idx / 24 % NGEO); Case c = gen_case(g, fn, o);
        if (g.chance(0.1) && is_grad(fn)) c.P = c.C; if (g.chance(0.1)) { const Sh &s = c.A.L < c.B.L ? c.A : c.B, t = s; if (t.L <= 2 || !(is_semi(fn) || (is_nuc(fn) && fn != NPT))) c.A = c.B = t; }
        if (g.chance(0.1)) { for (auto &q : c.oc) q.sh.o = {{7, 8, 9}}; for (auto &q : c.gr.oc) q.sh.o = {{7, 8, 9}}; }
        x.desc(js(c)); x.nontrivial(x.cur); x.count(std::string("fn_") + FN_NAME[fn]);
        Args a = ro_args(g, c); size_t used = wm_arena_used(); std::vector<char> snap(used); char *base = (char *) a.A; (void) base;
        int k = FN_NOUT[fn]; std::vector<Mat> M(k, Mat(c.size(), 0.25)), N; std::vector<double *> po; for (auto &m : M) po.push_back(m.data());
        double **pp = ro_copy(po.data(), po.size());       // lists of output pointers are inputs as well
        if (!ro_call(x, FN_NAME[fn], [&] { raw_call(fn, a, pp); })) return;
        x.count("protected_bytes", wm_arena_used());
        // the same objects, used again, still mean the same
        std::string wh; N = run(c); if (!same_bits(M, N, &wh)) { x.fail(std::string(FN_NAME[fn]) + ": result over read-only inputs differs from an ordinary call, " + wh); return; }
        if (is_nuc(fn) && fn != NNUM) {      // model-specific entry points
            double *m = po[0], *p = a.prm;
            if (!ro_call(x, std::string(FN_NAME[fn]) + " (model-specific)", [&] {
                if (fn == NPT) libgrpp_nuclear_attraction_integrals_point_charge(a.A, a.B, a.C, a.Z, m); else if (fn == NBALL) libgrpp_nuclear_attraction_integrals_charged_ball(a.A, a.B, a.C, a.Z, p[0], m);
                else if (fn == NGAUSS) libgrpp_nuclear_attraction_integrals_gaussian_model(a.A, a.B, a.C, a.Z, p[0], m); else if (fn == NFERMI) libgrpp_nuclear_attraction_integrals_fermi_model(a.A, a.B, a.C, a.Z, p[0], p[1], m);
                else libgrpp_nuclear_attraction_integrals_fermi_bubble_model(a.A, a.B, a.C, a.Z, p[0], p[1], p[2], m); })) return;
        }
        if (has_fort(fn)) {
            wm_arena_reset();
            FArgs f = fort_args([](size_t n) { return wm_arena_alloc(n); }, c);
            for (int v = 0; v < 2; v++) { for (auto &m : M) std::fill(m.begin(), m.end(), 0.0); if (!ro_call(x, std::string(FN_NAME[fn]) + " (Fortran interface)", [&] { fort_call(f, po.data(), v); })) return; if (!is_nuc(fn)) break; }
        }
        return;
    }
    // constructors, copies, accessors: read-only sources; then the sources change and nothing else does
    Case c = gen_case(g, FULL, opt_for(g, FULL)); Sh s = c.A; Pt u; GenOpt o; gen_pot(g, u, g.i(0, 8), o, g.chance(0.1) ? 0 : 1); if (g.chance(0.2) && !u.c.empty()) u.c[0] = 1e-20;
    if (g.chance(0.3)) { s.L = g.i(0, 10); } if (g.chance(0.3)) s.c[0] = 0;
    x.desc("{\"shell\":" + js(s) + ",\"potential\":" + js(u) + "}"); x.nontrivial(x.cur); x.count("constructor_cases");
    double *so = ro_copy(s.o.data(), 3), *sc = ro_copy(s.c.data(), s.c.size()), *sa = ro_copy(s.a.data(), s.a.size()), *uc = ro_copy(u.c.data(), u.c.size()), *ua = ro_copy(u.a.data(), u.a.size()); int *un = ro_copy(u.n.data(), u.n.size());
    libgrpp_shell_t *S = 0, *S2 = 0; libgrpp_potential_t *U = 0, *U2 = 0, *U3 = 0; double v[6];
    if (!ro_call(x, "libgrpp_new_shell", [&] { S = libgrpp_new_shell(so, s.L, (int) s.c.size(), sc, sa); })) return;
    if (!ro_call(x, "libgrpp_new_potential", [&] { U = libgrpp_new_potential(u.L, u.J, (int) u.c.size(), un, uc, ua); })) return;
    for (void *p : {(void *) S->coeffs, (void *) S->alpha, (void *) S->cart_list, (void *) U->coeffs, (void *) U->alpha, (void *) U->powers, (void *) S, (void *) U}) if (p && wm_in_arena(p)) { x.fail("a new object keeps the caller's array instead of a copy"); return; }
    libgrpp_delete_shell(S); libgrpp_delete_potential(U);
    wm_arena_begin(); S = new_lsh(s); U = new_lpt(u); wm_arena_end();
    double r = g.logu(1e-3, 5);
    if (!ro_call(x, "libgrpp_shell_deep_copy", [&] { S2 = libgrpp_shell_deep_copy(S); }) || !ro_call(x, "libgrpp_get_shell_size", [&] { libgrpp_get_shell_size(S); }) || !ro_call(x, "libgrpp_shrink_potential", [&] { U2 = libgrpp_shrink_potential(U); }) || !ro_call(x, "libgrpp_potential_value", [&] { v[0] = libgrpp_potential_value(U, r); })) return;
    for (void *p : {(void *) S2->coeffs, (void *) S2->alpha, (void *) S2->cart_list, (void *) U2->coeffs, (void *) U2->alpha, (void *) U2->powers, (void *) S2, (void *) U2}) if (p && wm_in_arena(p)) { x.fail("a copy shares memory with its source"); return; }
    v[1] = libgrpp_potential_value(U2, r); std::string t0 = js(std::vector<double>(S2->coeffs, S2->coeffs + S2->num_primitives)) + js(std::vector<double>(S2->alpha, S2->alpha + S2->num_primitives)) + js(std::vector<int>(S2->cart_list, S2->cart_list + 3 * S2->cart_size));
    // scribble over every byte of the sources
    for (int i = 0; i < S->num_primitives; i++) S->coeffs[i] = S->alpha[i] = 1e9; for (int i = 0; i < 3 * S->cart_size; i++) S->cart_list[i] = 77; S->L = 99; for (int i = 0; i < U->num_primitives; i++) { U->coeffs[i] = U->alpha[i] = 1e9; U->powers[i] = 5; } U->num_primitives = 0; S->num_primitives = 0; S->origin[1] = 1e9;
    std::string t1 = js(std::vector<double>(S2->coeffs, S2->coeffs + S2->num_primitives)) + js(std::vector<double>(S2->alpha, S2->alpha + S2->num_primitives)) + js(std::vector<int>(S2->cart_list, S2->cart_list + 3 * S2->cart_size));
    if (t0 != t1 || S2->L != s.L || S2->origin[1] != s.o[1] || libgrpp_potential_value(U2, r) != v[1]) { x.fail("changing the source of a copy changes the copy"); return; }
    libgrpp_shell_shrink(S2); libgrpp_shell_mult_normcoef(S2); libgrpp_delete_shell(S2); libgrpp_delete_potential(U2); (void) U3;
    // scalar services of the Fortran interface: everything by reference
    wm_arena_reset();
    double R = g.uni(1, 7) / 52917.7, q[8]; double args[] = {g.logu(1e-6, 1e-3), (double) g.i(1, 120), R, R * g.uni(0.7, 1), R * 0.12, g.uni(-0.3, 1)}; double *A = ro_copy(args, 6); I4 zz[] = {g.i(1, 118), g.i(2, 290)}; I4 *Zp = ro_copy(zz, 2), err;
    I4 Ls[] = {g.i(0, 8), (I4) s.c.size()}; I4 *Lp = ro_copy(Ls, 2); double *cc = ro_copy(s.c.data(), s.c.size()), *aa = ro_copy(s.a.data(), s.a.size());
    if (!ro_call(x, "a scalar Fortran service", [&] {
        libgrpp_estimate_nuclear_rms_radius_johnson_1985_(Zp + 1, q); libgrpp_estimate_nuclear_rms_radius_golovko_2008_(Zp + 1, q); libgrpp_estimate_fermi_model_parameters_(A + 2, q, q + 1, &err);
        libgrpp_charge_density_ball_(A, A + 1, A + 2, q); libgrpp_charge_density_gaussian_(A, A + 1, A + 2, q); libgrpp_charge_density_fermi_(A, A + 1, A + 3, A + 4, q); libgrpp_charge_density_fermi_bubble_(A, A + 1, A + 3, A + 4, A + 5, q);
        libgrpp_coulomb_potential_point_(A, A + 1, q); libgrpp_coulomb_potential_ball_(A, A + 1, A + 2, q); libgrpp_coulomb_potential_gaussian_(A, A + 1, A + 2, q); libgrpp_coulomb_potential_fermi_(A, A + 1, A + 3, A + 4, q); libgrpp_coulomb_potential_fermi_bubble_(A, A + 1, A + 3, A + 4, A + 5, q);
        libgrpp_rms_radius_fermi_(Zp, A + 3, A + 4, q); libgrpp_rms_radius_fermi_bubble_(Zp, A + 3, A + 4, A + 5, q);
        radial_gto_norm_factor_(Lp, Lp + 1, cc, aa, q); })) return;
}
static Reg r18("C18", c18, mem_init);

// ---------------------------------------------------------------- C19 outputs: complete, exact extent, independent of their contents
static void c19(Ctx &x)
{
    regions();
    Rng g = x.rng(); libgrpp_set_default_parameters(); int fn = ALLF[x.idx % 20]; GenOpt o = opt_for(g, fn); o.geo = (int) (x.idx / 20 % NGEO);
    if (!is_semi(fn) && !(is_nuc(fn) && fn != NPT) && g.chance(0.3)) { o.Lmax = 10; o.ncmax = 2; o.npmax = 2; }
    Case c = gen_case(g, fn, o);
    // paths that end early: empty parts, far shells, potentials of zero, points at no centre
    int sp = g.i(0, 11);
    if (sp == 0) { for (auto &v : c.A.c) v = 0; } else if (sp == 1) { c.B.o = c.B.o + 300.0 * rand_dir(g); } else if (sp == 2) { c.U.c.assign(c.U.c.size(), 0.0); for (auto &q : c.oc) q.pot.c.assign(q.pot.c.size(), 0.0); }
    else if (sp == 3) { c.gr = Gr(); c.gr.has_loc = false; c.oc.clear(); c.U.c.clear(); c.U.n.clear(); c.U.a.clear(); } else if (sp == 4 && is_grad(fn)) c.P = {{50, 51, 52}}; else if (sp == 5) { c.gr.arep.clear(); } else if (sp == 6) { c.gr.esop.clear(); c.gr.oc.clear(); } else if (sp == 7) { c.gr.has_loc = false; }
    else if (sp == 8 && is_grad(fn)) { c.A.o = c.B.o = c.C = c.P; } else if (sp == 9) { for (auto &v : c.B.a) v = g.logu(1e3, 1e6); }
    if (is_nuc(fn) && fn != NPT && (sp == 1 || sp == 9)) { c = gen_case(g, fn, o); }
    if (is_semi(fn) && (sp == 1 || sp == 9)) c = gen_case(g, fn, o);
    x.desc(js(c)); x.count(std::string("fn_") + FN_NAME[fn]); x.count(sf("path_%d", sp));
    Objs q(c); Args a = q.args(); int k = FN_NOUT[fn], n = c.size(); std::vector<Mat> M0;
    // Fortran interface as well (the pieces of the outercore operator accumulate by design)
    bool ft = has_fort(fn) && fn != OC; FArgs f; std::vector<void *> blocks; if (ft) f = fort_args([&](size_t s) { void *p = malloc(s + 1); blocks.push_back(p); return p; }, c);
    int pats[3] = {0, g.i(1, 5), g.i(1, 6)};
    for (int t = 0; t < (ft ? 4 : 3); t++) {
        bool left = (t + x.idx) % 2; std::vector<double *> po(k); for (int i = 0; i < k; i++) po[i] = place(reg[i], n, left, pats[t % 3], g);
        std::vector<double *> keep = po;
        std::string nm = std::string(FN_NAME[fn]) + (t == 3 ? " (Fortran interface)" : "");
        bool ok = guarded([&] { if (t == 3) fort_call(f, po.data(), (int) (x.idx & 1)); else raw_call(fn, a, po.data()); });
        x.count("guarded_calls");
        if (!ok) { int gi = guard_of(fault_addr); x.fail(gi >= 0 ? nm + sf(" reaches %s its output %d of %d elements", left ? "before" : "beyond", gi, n) : nm + sf(": invalid access at %p", fault_addr)); return; }
        if (po != keep) { x.fail(nm + " changes the list of output pointers"); return; }
        std::vector<Mat> M(k); for (int i = 0; i < k; i++) { if (!slack_ok(reg[i])) { x.fail(nm + sf(" writes outside output %d of %d elements", i, n)); return; } M[i].assign(reg[i].p, reg[i].p + n); }
        for (int i = 0; i < k; i++) for (double v : M[i]) if (!std::isfinite(v)) { x.fail(nm + sf(": output %d holds %g (buffer filled with pattern %d before)", i, v, pats[t % 3])); return; }
        x.count("elements", (double) k * n);
        if (!t) M0 = M; else { std::string wh; if (!same_bits(M0, M, &wh)) { x.fail(nm + " depends on what the output held before: " + wh); return; } }
    }
    for (void *p : blocks) free(p);
    if (maxabs(M0) > 1e-13) x.nontrivial(x.cur);
    // layout: element (i,j) at i*nB+j, judged by the reference for blocks of unequal shape
    bool cheap = fn == OVL || fn == KIN || fn == MOM || fn == NPT || fn == T1 || fn == GOVL || (x.idx / 20) % 4 == 0;
    if (cheap && sp >= 5 && sp != 9 && c.A.L <= 5 && c.B.L <= 5 && c.A.L != c.B.L) { x.count("layouts"); cmp_ref(x, std::string("layout of ") + FN_NAME[fn], M0, reference(c)); }
}
static Reg r19("C19", c19, mem_init);

// ---------------------------------------------------------------- C21 ledger
static long live0, bytes0;
static std::vector<std::vector<double>> obuf;
static void call_quiet(int fn, Args &a, double **po) { wm_ledger = 1; raw_call(fn, a, po); wm_ledger = 0; }
// one parameter of a case changed
static Case mutant(Rng &g, const Case &c0)
{
    Case c = c0; int b = base_fn(c.fn);
    auto tweak = [&](double &v) { v *= g.pick({1.0 + 1e-9, 1.25, 0.8, 1.0000001}); };
    auto msh = [&](Sh &s) { int i = g.i(0, (int) s.c.size() - 1); switch (g.i(0, 5)) { case 0: tweak(s.a[i]); break; case 1: s.c[i] = s.c[i] == 0 ? 0.3 : g.chance(0.5) ? -s.c[i] : s.c[i] * 1.5; break; case 2: s.o[g.i(0, 2)] += g.pick({1e-9, 0.01, -0.5}); break; case 3: if (s.L > 0) s.L--; else s.L++; break; case 4: if (s.c.size() > 1) { s.c.pop_back(); s.a.pop_back(); } else { s.c.push_back(0.4); s.a.push_back(0.7); } break; case 5: std::swap(s.a[0], s.a[s.a.size() - 1]); break; } };
    auto mpt = [&](Pt &p) { if (p.c.empty()) { p.c = {1}; p.n = {2}; p.a = {1}; return; } int i = g.i(0, (int) p.c.size() - 1); switch (g.i(0, 5)) { case 0: tweak(p.a[i]); break; case 1: p.c[i] = p.c[i] == 0 ? 0.3 : -1.1 * p.c[i]; break; case 2: p.n[i] = (p.n[i] + g.i(1, 2)) % 3; break; case 3: if (b != OC) p.L = p.L ? p.L - 1 : 1; break; case 4: p.J = p.L == 0 ? 1 : 4 * p.L - p.J; break; case 5: if (p.c.size() > 1) { p.c.pop_back(); p.n.pop_back(); p.a.pop_back(); } break; } };
    auto moc = [&](std::vector<Oc> &v) { if (v.empty()) { Oc q; q.pot.c = {1}; q.pot.n = {2}; q.pot.a = {1}; q.pot.J = 1; q.sh.c = {1}; q.sh.a = {1}; v.push_back(q); return; } int i = g.i(0, (int) v.size() - 1); int k = g.i(0, 4); if (k == 0) v.pop_back(); else if (k == 1) v.push_back(v[0]); else if (k == 2) { Sh &s = v[i].sh; s.c[0] *= -1.2; s.a[0] *= 1.1; } else { int L = v[i].pot.L, J = v[i].pot.J; mpt(v[i].pot); if (v[i].pot.L != L) { v[i].pot.L = L; v[i].pot.J = J; } } };
    int w = g.i(0, 9);
    if (w < 3) msh(c.A); else if (w < 6) msh(c.B); else if (w == 6) { if (b >= T1) c.C[g.i(0, 2)] += g.pick({1e-9, 0.01, -0.3}); if (is_grad(c.fn)) c.P = g.pick({c.A.o, c.B.o, c.C}); }
    else if (w == 7) { std::swap(c.A, c.B); } else {
        if (b == T1 || b == T2 || b == SO) mpt(c.U); else if (b == OC) moc(c.oc);
        else if (b == FULL) { int k = g.i(0, 3); if (k == 0) { if (c.gr.has_loc) mpt(c.gr.loc); } else if (k == 1 && !c.gr.arep.empty()) mpt(c.gr.arep[0]); else if (k == 2 && !c.gr.esop.empty()) mpt(c.gr.esop[0]); else moc(c.gr.oc); }
        else if (is_nuc(c.fn)) { if (c.prm.empty() || g.chance(0.3)) c.Z = c.Z % 118 + 1; else { int i = g.i(0, (int) c.prm.size() - 1); if (i == 2) c.prm[i] += 0.1; else c.prm[i] *= 1.05; } } else msh(c.A);
    }
    return c;
}
static void c21(Ctx &x)
{
    Rng g = x.rng(); libgrpp_set_default_parameters(); int w = (int) (x.idx % 23);
    wm_bad = 0;
    auto bad = [&](const char *what) { if (!wm_bad) return false; x.fail(std::string(what) + ": a block is released twice"); return true; };
    if (w < 20) {
        int fn = ALLF[w]; GenOpt o = opt_for(g, fn); o.geo = (int) (x.idx / 23 % NGEO); o.budget *= 0.5; std::vector<Case> cs{gen_case(g, fn, o)};
        int sp = g.i(0, 9); Case &c0 = cs[0];
        if (sp == 0) for (auto &v : c0.A.c) v = 0; else if (sp == 1) { c0.U.c.assign(c0.U.c.size(), 0.0); for (auto &q : c0.oc) q.pot.c.assign(q.pot.c.size(), 0.0); for (auto &q : c0.gr.oc) q.pot.c.assign(q.pot.c.size(), 0.0); } else if (sp == 2 && is_grad(fn)) c0.P = {{50, 51, 52}};
        else if (sp == 3) { c0.oc.clear(); c0.gr.oc.clear(); } else if (sp == 4 && !is_semi(fn) && !is_nuc(fn)) c0.B.o = c0.B.o + 300.0 * rand_dir(g); else if (sp == 5) { for (auto &q : c0.oc) { q.pot = c0.oc[0].pot; q.sh.L = q.pot.L; } }
        cs.push_back(mutant(g, cs[0])); cs.push_back(mutant(g, g.chance(0.5) ? cs[0] : cs[1]));
        for (auto &c : cs) if (c.A.L > 10) c.A.L = 9; for (auto &c : cs) if (c.B.L > 10) c.B.L = 9;
        x.desc("[" + js(cs[0]) + "," + js(cs[1]) + "," + js(cs[2]) + "]"); x.nontrivial(x.cur); x.count(std::string("fn_") + FN_NAME[fn]);
        std::vector<std::unique_ptr<Objs>> os; for (auto &c : cs) os.emplace_back(new Objs(c));
        std::vector<Args> as; for (auto &o : os) as.push_back(o->args());
        bool ft = has_fort(fn); std::vector<FArgs> fa; std::vector<void *> bl; if (ft) for (auto &c : cs) fa.push_back(fort_args([&](size_t s) { void *p = malloc(s + 1); bl.push_back(p); return p; }, c));
        std::vector<Mat> M(FN_NOUT[fn], Mat(78 * 78, 0.0)); std::vector<double *> po; for (auto &m : M) po.push_back(m.data());
        long lv[4], by[4], calls = wm_calls;
        for (int r = 0; r < 3; r++) {
            for (size_t i = 0; i < cs.size(); i++) call_quiet(fn, as[i], po.data());
            lv[r] = wm_live; by[r] = wm_bytes;
        }
        if (bad(FN_NAME[fn])) return;
        x.count("allocations_seen", wm_calls - calls);
        if (wm_calls == calls && fn == OC && !cs[0].oc.empty()) { x.fail("the ledger saw no allocation: not a valid observation"); return; }
        if (lv[2] != lv[1] || by[2] != by[1]) { x.fail(std::string(FN_NAME[fn]) + sf(" leaves %ld blocks (%ld bytes) behind when the same three calls are repeated", lv[2] - lv[1], by[2] - by[1])); return; }
        if (ft) {
            for (int r = 0; r < 3; r++) { for (auto &f : fa) { wm_ledger = 1; fort_call(f, po.data(), r & 1); fort_call(f, po.data(), ~r & 1); wm_ledger = 0; } lv[r] = wm_live; by[r] = wm_bytes; }
            if (bad("Fortran interface")) return;
            if (lv[2] != lv[1] || by[2] != by[1]) { x.fail(std::string(FN_NAME[fn]) + sf(" (Fortran interface) leaves %ld blocks (%ld bytes) behind when the same calls are repeated", lv[2] - lv[1], by[2] - by[1])); return; }
        }
        for (void *p : bl) free(p);
        return;
    }
    if (w == 20) {       // histories of initialisations
        int n = g.i(1, 4); std::string h; for (int i = 0; i < n; i++) h += g.pick({'I', 'F', 'I'}); h += "FI"; x.desc("{\"cycle\":\"" + h + "\"}"); x.nontrivial(x.cur + std::to_string(x.idx)); x.count("life_cycles");
        long lv[3], by[3];
        for (int r = 0; r < 3; r++) { wm_ledger = 1; for (char k : h) if (k == 'I') libgrpp_init(); else libgrpp_finalize(); wm_ledger = 0; lv[r] = wm_live; by[r] = wm_bytes; }
        if (bad("initialisation")) return;
        if (lv[2] != lv[1] || by[2] != by[1]) x.fail(sf("a cycle %s of initialisations leaves %ld blocks (%ld bytes) behind", h.c_str(), lv[2] - lv[1], by[2] - by[1]));
        return;
    }
    // objects: whatever is built and deleted, the ledger returns to where it was, and the caller's arrays stay
    wm_ledger = 1; long l0 = wm_live, b0 = wm_bytes, n0 = wm_calls; std::string h;
    {
        struct Src { double *c, *a, *o; int *n; };
        std::vector<Src> src; std::vector<libgrpp_shell_t *> S; std::vector<libgrpp_potential_t *> U; std::vector<libgrpp_grpp_t *> G;
        auto mk = [&](int n) { Src s; s.c = (double *) malloc(8 * n + 1); s.a = (double *) malloc(8 * n + 1); s.o = (double *) malloc(24); s.n = (int *) malloc(4 * n + 1); for (int i = 0; i < n; i++) { s.c[i] = g.chance(0.2) ? g.pick({0.0, 1e-16}) : g.uni(-2, 2); s.a[i] = g.logu(0.1, 100); s.n[i] = g.i(0, 2); } for (int i = 0; i < 3; i++) s.o[i] = g.uni(-1, 1); src.push_back(s); return s; };
        auto shell = [&] { int n = g.i(1, 12); Src s = mk(n); return libgrpp_new_shell(s.o, g.i(0, 10), n, s.c, s.a); };
        auto pot = [&] { int n = g.i(0, 9); Src s = mk(n); int l = g.i(0, 8); return libgrpp_new_potential(l, l ? 2 * l - 1 : 1, n, s.n, s.c, s.a); };
        int ops = g.i(1, 40); bool big = g.chance(0.1);
        for (int i = 0; i < ops; i++) switch (g.i(0, 10)) {
            case 0: S.push_back(shell()); h += 's'; break;
            case 1: if (!S.empty()) { S.push_back(libgrpp_shell_deep_copy(S[g.i(0, (int) S.size() - 1)])); h += 'c'; } break;
            case 2: if (!S.empty()) { libgrpp_shell_shrink(S[g.i(0, (int) S.size() - 1)]); h += 'k'; } break;
            case 3: U.push_back(pot()); h += 'p'; break;
            case 4: if (!U.empty()) { U.push_back(libgrpp_shrink_potential(U[g.i(0, (int) U.size() - 1)])); h += 'q'; } break;
            case 5: if (!S.empty()) { int j = g.i(0, (int) S.size() - 1); libgrpp_delete_shell(S[j]); S.erase(S.begin() + j); h += 'S'; } break;
            case 6: if (!U.empty()) { int j = g.i(0, (int) U.size() - 1); libgrpp_delete_potential(U[j]); U.erase(U.begin() + j); h += 'P'; } break;
            case 7: G.push_back(libgrpp_new_grpp()); h += 'g'; break;
            case 8: case 9: if (!G.empty()) { auto *q = G[g.i(0, (int) G.size() - 1)]; int rep = big ? g.i(1, 250) : g.i(1, 3); int what = g.i(0, 3);
                for (int r = 0; r < rep; r++) { if (what == 0) { if (!q->U_L) libgrpp_grpp_set_local_potential(q, pot()); } else if (what == 1) libgrpp_grpp_add_averaged_potential(q, pot()); else if (what == 2) libgrpp_grpp_add_spin_orbit_potential(q, pot()); else libgrpp_grpp_add_outercore_potential(q, pot(), shell()); } h += "abco"[what]; } break;
            case 10: { int L = g.i(0, 10); int *l = libgrpp_generate_shell_cartesians(L); free(l); h += 'l'; } break;
        }
        x.desc("{\"history\":\"" + h + "\"}"); x.nontrivial(x.cur + std::to_string(x.idx)); x.count("object_histories"); x.count("object_operations", ops);
        for (auto *p : S) libgrpp_delete_shell(p); for (auto *p : U) libgrpp_delete_potential(p); for (auto *p : G) libgrpp_delete_grpp(p);
        for (auto &s : src) for (void *p : {(void *) s.c, (void *) s.a, (void *) s.o, (void *) s.n}) if (!wm_is_live(p)) { wm_ledger = 0; x.fail("deleting an object released an array of the caller"); return; }
        for (auto &s : src) { free(s.c); free(s.a); free(s.o); free(s.n); }
    }
    wm_ledger = 0; x.count("allocations_seen", wm_calls - n0);
    if (bad("objects")) return;
    if (wm_live != l0 || wm_bytes != b0) x.fail(sf("after deleting every object %ld blocks (%ld bytes) remain", wm_live - l0, wm_bytes - b0));
}
static Reg r21("C21", c21, mem_init);

// ---------------------------------------------------------------- C22 history independence
// A pristine process (initialised, nothing evaluated) forks one child per reference evaluation; the worker has a long history instead.
struct Sh22 { std::atomic<int> state; double v[12 * 78 * 78]; };
static Sh22 *s22; static int to_z[2], from_z[2];
static void make22(const Ctx &x, long idx, std::vector<Case> &cs, Rng &g)
{
    int fn = ALLF[idx % 20]; GenOpt o = opt_for(g, fn); o.geo = (int) (idx / 20 % NGEO); o.budget *= 0.4; if (!is_semi(fn)) o.Lmax = std::min(o.Lmax, 6);
    cs.push_back(gen_case(g, fn, o)); int k = 3; for (int i = 0; i < k; i++) { cs.push_back(mutant(g, cs[g.chance(0.7) ? 0 : cs.size() - 1])); }
    for (auto &c : cs) { c.A.L = std::min(c.A.L, 10); c.B.L = std::min(c.B.L, 10); }
}
static void junk_stack(int b) { volatile char s[200000]; memset((void *) s, b, sizeof s); asm volatile("" : : "r"(s) : "memory"); }
static void scalars22(Rng g, double *v)
{
    double fm = 1 / 52917.7210903; int n = 0; for (int i = 0; i < 18; i++) v[i] = 0;
    double R = g.uni(1, 7) * fm, c = g.uni(2, 7) * fm, a = 0.5 * fm, k = g.uni(-0.3, 1), r = g.logu(1e-7, 1e-2), Z = g.i(1, 118); if (g.chance(0.5)) r = c + a * g.uni(-3, 6);
    v[n++] = libgrpp_charge_density_ball(r, Z, R); v[n++] = libgrpp_charge_density_gaussian(r, Z, R); v[n++] = libgrpp_charge_density_fermi(r, Z, c, a); v[n++] = libgrpp_charge_density_fermi_bubble(r, Z, c, a, k);
    v[n++] = libgrpp_coulomb_potential_point(r, Z); v[n++] = libgrpp_coulomb_potential_ball(r, Z, R); v[n++] = libgrpp_coulomb_potential_gaussian(r, Z, R); v[n++] = libgrpp_coulomb_potential_fermi(r, Z, c, a); v[n++] = libgrpp_coulomb_potential_fermi_bubble(r, Z, c, a, k);
    v[n++] = libgrpp_rms_radius_fermi((int) Z, c, a); v[n++] = libgrpp_rms_radius_fermi_bubble((int) Z, c, a, k); v[n++] = libgrpp_estimate_nuclear_rms_radius_johnson_1985((int) (2.5 * Z)); v[n++] = libgrpp_estimate_nuclear_rms_radius_golovko_2008((int) (2.5 * Z));
    v[n] = libgrpp_estimate_fermi_model_parameters(R, &v[n + 1], &v[n + 2]); n += 3;
    I4 L = g.i(0, 6), np = 2; double cc[] = {g.uni(0.1, 1), g.uni(0.1, 1)}, aa[] = {g.logu(0.1, 10), g.logu(0.1, 10)}; radial_gto_norm_factor_(&L, &np, cc, aa, &v[n++]);
    int zero[] = {2, 1, 0}; libgrpp_potential_t *p = libgrpp_new_potential(1, 1, 2, zero, cc, aa); v[n++] = libgrpp_potential_value(p, r * 1e3); libgrpp_delete_potential(p);
}
static const int NSC = 18;
static void zygote(Ctx &x)
{
    long msg[2];
    while (read(to_z[0], msg, sizeof msg) == (long) sizeof msg) {
        pid_t p = fork();
        if (p == 0) {
            alarm(60); x.idx = msg[0]; Rng g = x.rng(); std::vector<Case> cs; make22(x, msg[0], cs, g); int k = (int) msg[1];
            junk_stack(0); wm_junk = 0;
            if (k == (int) cs.size()) scalars22(Rng(x.idx), s22[k].v);
            else { auto M = run(cs[k]); double *v = s22[k].v; for (auto &m : M) { memcpy(v, m.data(), 8 * m.size()); v += m.size(); } }
            s22[k].state = 1; _exit(0);
        }
        int st = 0; waitpid(p, &st, 0); if (write(from_z[1], &st, sizeof st) != sizeof st) _exit(0);
    }
    _exit(0);
}
static void c22_init(Ctx &x)
{
    mem_init(x); libgrpp_set_default_parameters();
    s22 = (Sh22 *) mmap(0, 8 * sizeof(Sh22), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (pipe(to_z) || pipe(from_z)) abort();
    if (fork() == 0) { close(to_z[1]); close(from_z[0]); if (!x.only) fclose(x.out); zygote(x); }
    close(to_z[0]); close(from_z[1]); fcntl(to_z[1], F_SETFD, FD_CLOEXEC);
}
static int bad_gen(int L, int *p) { auto v = cart_order(L); std::reverse(v.begin(), v.end()); for (auto &t : v) for (int k : t) *p++ = k; return (int) v.size(); }
static std::string order_of(void) { int l[3 * 10]; libgrpp_params.cartesian_generator(3, l); std::string s; for (int i : l) s += (char) ('0' + i); return s; }
static void c22(Ctx &x)
{
    Rng g = x.rng(); std::vector<Case> cs; make22(x, x.idx, cs, g); int n = (int) cs.size(); int fn = cs[0].fn;
    std::string d = "["; for (auto &c : cs) d += (d.size() > 1 ? "," : "") + js(c); x.desc(d + "]"); x.nontrivial(x.cur); x.count(std::string("fn_") + FN_NAME[fn]);
    for (int k = 0; k <= n; k++) {
        s22[k].state = 0; long msg[2] = {x.idx, k}; int st = -1;
        if (write(to_z[1], msg, sizeof msg) != sizeof msg || read(from_z[0], &st, sizeof st) != sizeof st) { fprintf(stderr, "zygote lost\n"); _exit(9); }
        if (st || s22[k].state != 1) { x.fail(sf("evaluation in a fresh process ended with status %d", st)); return; }
    }
    auto settings = libgrpp_params; std::string ord = order_of();
    auto judge = [&](int k, const std::vector<Mat> &M, const char *how) {
        const double *v = s22[k].v;
        for (size_t m = 0; m < M.size(); m++) for (size_t i = 0; i < M[m].size(); i++, v++) if (memcmp(v, &M[m][i], 8) && !(*v == 0 && M[m][i] == 0)) { x.fail(std::string(FN_NAME[fn]) + sf(" (%s): matrix %d element %d is %.17g, in a fresh process %.17g", how, (int) m, (int) i, M[m][i], *v)); return false; }
        x.count("results_compared"); return true;
    };
    std::vector<std::unique_ptr<Objs>> os(n);
    std::string h; int steps = g.i(8, 16);
    for (int t = 0; t < steps; t++) {
        int k = g.i(0, n - 1); if (t == 0) k = 1; if (t == steps - 1) k = 0;
        wm_junk = g.chance(0.8) ? g.pick({0, 0xFF, 0x41, 0x7F}) : -1; junk_stack(g.pick({0, 0xFF, 0x40, 0x3F}));
        int w = g.i(0, 6); const char *how = "";
        if (w == 0) { how = "fresh objects"; std::vector<Mat> M = run(cs[k]); if (!judge(k, M, how)) break; }
        else if (w <= 2) { how = "kept objects"; if (!os[k]) os[k].reset(new Objs(cs[k])); if (!judge(k, run_on(fn, os[k]->args(), cs[k].size()), how)) break; }
        else if (w == 3) {      // objects released and new ones in the same place
            how = "memory of released objects"; for (auto &o : os) o.reset(); wm_junk = -1; std::vector<Mat> M = run(cs[k]); if (!judge(k, M, how)) break; }
        else if (w == 4) {      // the same object edited in place by its owner
            how = "object edited in place"; int j = g.i(0, n - 1); Objs q(cs[j]); run_on(fn, q.args(), cs[j].size());
            const Sh &s = cs[k].A; if (cs[j].A.L == s.L && cs[j].A.c.size() == s.c.size()) { for (size_t i = 0; i < s.c.size(); i++) { q.A->coeffs[i] = s.c[i]; q.A->alpha[i] = s.a[i]; } for (int i = 0; i < 3; i++) q.A->origin[i] = s.o[i]; Objs r(cs[k]); Args a = r.args(); a.A = q.A; if (!judge(k, run_on(fn, a, cs[k].size()), how)) break; x.count("edited_in_place"); } }
        else if (w == 5) {      // other calls in between: another family on the same objects, settings changed and restored
            how = "after settings were changed and restored"; double keep[3] = {libgrpp_params.radial_tolerance, libgrpp_params.angular_screening_tolerance, libgrpp_params.modified_bessel_tolerance}; auto *gen = libgrpp_params.cartesian_generator;
            libgrpp_set_radial_tolerance(g.pick({1e-3, 1e-6, 1e-20})); libgrpp_set_angular_screening_tolerance(1e-3); libgrpp_set_modified_bessel_tolerance(1e-3); if (g.chance(0.5)) libgrpp_set_cartesian_generator(bad_gen);
            { Case c = cs[k]; run(c); Case c2 = gen_case(g, OVL, GenOpt()); run(c2); }
            libgrpp_set_radial_tolerance(keep[0]); libgrpp_set_angular_screening_tolerance(keep[1]); libgrpp_set_modified_bessel_tolerance(keep[2]); libgrpp_set_cartesian_generator(gen);
            if (!judge(k, run(cs[k]), how)) break; }
        else { how = "after finalise and initialise"; libgrpp_finalize(); libgrpp_init(); if (!judge(k, run(cs[k]), how)) break; }
        x.count(std::string("step_") + how);
        if (libgrpp_params.radial_tolerance != settings.radial_tolerance || libgrpp_params.angular_screening_tolerance != settings.angular_screening_tolerance || libgrpp_params.modified_bessel_tolerance != settings.modified_bessel_tolerance || order_of() != ord) { x.fail("an evaluation changed the settings"); break; }
    }
    wm_junk = -1;
    double v[NSC]; for (int t = 0; t < 3; t++) { double u[NSC]; if (t) { scalars22(Rng(x.idx * 31 + t), u); junk_stack(0xFF); } scalars22(Rng(x.idx), v); for (int i = 0; i < NSC; i++) if (memcmp(&v[i], &s22[n].v[i], 8)) { x.fail(sf("scalar service %d returns %.17g, in a fresh process %.17g", i, v[i], s22[n].v[i])); return; } x.count("scalars_compared", NSC); }
}
static Reg r22("C22", c22, c22_init);
