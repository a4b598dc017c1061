// Monitors of the objects and settings: component order (C23), what objects keep (C24), normalisation and scaling (C26), accuracy
// settings (C28), life cycle of the library (C30).
#include "mon.hpp"
#include <pthread.h>
#include <fcntl.h>

static void lib_init(Ctx &) { libgrpp_init(); }
// ---------------------------------------------------------------- C23 component order
static uint64_t perm_seed = 1;
static int gen_reverse(int L, int *p) { auto v = cart_order(L); std::reverse(v.begin(), v.end()); for (auto &t : v) for (int k : t) *p++ = k; return (int) v.size(); }
static int gen_shuffle(int L, int *p)
{
    auto v = cart_order(L); Rng g(perm_seed * 131 + L);
    for (int i = (int) v.size() - 1; i > 0; i--) std::swap(v[i], v[g.i(0, i)]);
    for (auto &t : v) for (int k : t) *p++ = k; return (int) v.size();
}
static int gen_zfirst(int L, int *p) { int n = 0; for (int z = L; z >= 0; z--) for (int y = L - z; y >= 0; y--) { *p++ = L - z - y; *p++ = y; *p++ = z; n++; } return n; }
static int gen_swap(int L, int *p) { auto v = cart_order(L); if (v.size() > 2) std::swap(v[v.size() - 1], v[v.size() - 2]); for (auto &t : v) for (int k : t) *p++ = k; return (int) v.size(); }
static void install(int k)
{
    switch (k) {
    case 0: libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC); break;
    case 1: libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE); break;
    case 2: libgrpp_set_cartesian_generator(gen_reverse); break;
    case 3: libgrpp_set_cartesian_generator(gen_shuffle); break;
    case 4: libgrpp_set_cartesian_generator(gen_zfirst); break;
    case 5: libgrpp_set_cartesian_generator(gen_swap); break;
    }
}
static const char *GEN_NAME[] = {"dirac", "turbomole", "reverse", "shuffled", "z_first", "last_two_exchanged"};
// position in the documented order of every component of a list; empty if the list is not a permutation
static std::vector<int> positions(int L, const int *cl)
{
    auto d = cart_order(L); std::vector<int> p, seen(d.size(), 0);
    for (size_t i = 0; i < d.size(); i++) {
        int f = -1; for (size_t j = 0; j < d.size(); j++) if (d[j][0] == cl[3 * i] && d[j][1] == cl[3 * i + 1] && d[j][2] == cl[3 * i + 2]) f = (int) j;
        if (f < 0 || seen[f]) return {};
        seen[f] = 1; p.push_back(f);
    }
    return p;
}
static void c23(Ctx &x)
{
    Rng g = x.rng(); int fn = ALLF[x.idx % 20]; GenOpt o = opt_for(g, fn); o.geo = (int) (x.idx / 20 % NGEO);
    libgrpp_set_default_parameters();
    if (x.idx % 20 == 0) {      // lists themselves
        for (int L = 0; L <= 12; L++) for (int k = 0; k < 2; k++) {
            install(k); int *l = libgrpp_generate_shell_cartesians(L); auto d = cart_order(L); bool ok = true;
            for (size_t i = 0; i < d.size(); i++) for (int e = 0; e < 3; e++) ok = ok && l[3 * i + e] == d[i][e];
            auto p = positions(L, l); free(l);
            x.desc(sf("{\"L\":%d,\"order\":\"%s\"}", L, GEN_NAME[k]));
            if (p.empty()) { x.fail(sf("components of L = %d (%s order) are not each monomial once", L, GEN_NAME[k])); return; }
            if (k == 0 && !ok) { x.fail(sf("default components of L = %d are not in the documented order", L)); return; }
            x.count("lists");
        }
        libgrpp_set_default_parameters();
    }
    Case c = gen_case(g, fn, o);
    auto M = run(c);
    int ga = g.i(1, 5), gb = g.chance(0.5) ? ga : g.i(0, 5), ge = g.chance(0.5) ? ga : g.i(0, 5), gp = g.i(0, 5); perm_seed = g.next() >> 8;
    bool copyA = g.chance(0.3), copyB = g.chance(0.3);
    x.desc("{\"case\":" + js(c) + sf(",\"order_A\":\"%s\",\"order_B\":\"%s\",\"order_at_call\":\"%s\",\"order_parts\":\"%s\",\"perm_seed\":%llu,\"copies\":[%d,%d]}", GEN_NAME[ga], GEN_NAME[gb], GEN_NAME[ge], GEN_NAME[gp], (unsigned long long) perm_seed, copyA, copyB));
    x.count(std::string("fn_") + FN_NAME[fn]); if (maxabs(M) > 1e-13 && (c.A.L > 0 || c.B.L > 0)) x.nontrivial(x.cur);
    install(gp); Objs q(c);
    install(ga); libgrpp_shell_t *A = new_lsh(c.A); install(gb); libgrpp_shell_t *B = new_lsh(c.B);
    install(ge);
    if (copyA) { auto *t = libgrpp_shell_deep_copy(A); libgrpp_delete_shell(A); A = t; }
    if (copyB) { auto *t = libgrpp_shell_deep_copy(B); libgrpp_delete_shell(B); B = t; }
    if (g.chance(0.2)) { libgrpp_shell_shrink(A); libgrpp_shell_shrink(B); }
    auto pa = positions(c.A.L, A->cart_list), pb = positions(c.B.L, B->cart_list);
    bool ok = !pa.empty() && !pb.empty() && A->cart_size == (int) pa.size() && libgrpp_get_shell_size(B) == (int) pb.size();
    if (!ok) x.fail("a shell does not list every monomial once");
    else {   // the generator installed when the shell was made decides (also through copies)
        std::vector<int> want(3 * csize(c.A.L)); install(ga); libgrpp_params.cartesian_generator(c.A.L, want.data());
        for (size_t i = 0; i < want.size(); i++) if (A->cart_list[i] != want[i]) { ok = false; x.fail("a shell does not keep the component order installed when it was made"); break; }
        install(ge);
    }
    if (ok) {
        Args a = q.args(); a.A = A; a.B = B;
        auto N = run_on(fn, a, c.size()); auto T = tolerances(c); int nA = csize(c.A.L), nB = csize(c.B.L);
        for (size_t m = 0; m < M.size() && ok; m++) {
            std::vector<ld> w(nA * nB), t(nA * nB);
            for (int i = 0; i < nA; i++) for (int j = 0; j < nB; j++) { w[i * nB + j] = M[m][pa[i] * nB + pb[j]]; t[i * nB + j] = 2 * T[m].tol[pa[i] * nB + pb[j]]; }
            ok = cmp_tol(x, std::string(FN_NAME[fn]) + sf("[%d] in another component order", (int) m), N[m], w, t);
        }
    }
    libgrpp_delete_shell(A); libgrpp_delete_shell(B);
    libgrpp_set_default_parameters();
}
static Reg r23("C23", c23, lib_init);

// ---------------------------------------------------------------- C24 objects keep what they were given
static bool beq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static bool shell_is(Ctx &x, const libgrpp_shell_t *p, const Sh &s, const char *when)
{
    bool ok = p->L == s.L && p->cart_size == csize(s.L) && p->num_primitives == (int) s.c.size();
    for (int i = 0; ok && i < 3; i++) ok = beq(p->origin[i], s.o[i]);
    for (size_t i = 0; ok && i < s.c.size(); i++) ok = beq(p->coeffs[i], s.c[i]) && beq(p->alpha[i], s.a[i]);
    auto d = cart_order(s.L);
    for (size_t i = 0; ok && i < d.size(); i++) for (int e = 0; e < 3; e++) ok = ok && p->cart_list[3 * i + e] == d[i][e];
    if (!ok) x.fail(std::string("shell differs from what it was given ") + when);
    x.count("objects_compared");
    return ok;
}
// a potential may leave out terms with coefficients below the library's zero threshold, nothing else
static bool pot_is(Ctx &x, const libgrpp_potential_t *p, const Pt &s, const char *when)
{
    bool ok = p && p->L == s.L && p->J == s.J; int k = 0;
    for (size_t i = 0; ok && i < s.c.size(); i++) {
        if (k < p->num_primitives && beq(p->coeffs[k], s.c[i]) && beq(p->alpha[k], s.a[i]) && p->powers[k] == s.n[i]) { k++; continue; }
        ok = std::fabs(s.c[i]) < 1.01e-14;
    }
    ok = ok && k == p->num_primitives;
    if (!ok) x.fail(std::string("potential differs from what it was given ") + when);
    x.count("objects_compared");
    return ok;
}
static double special_coef(Rng &g) { double u = g.u(); return u < 0.1 ? 0.0 : u < 0.2 ? g.sgn() * g.logu(1e-18, 9e-15) : u < 0.35 ? g.sgn() * g.logu(1.1e-14, 1e-9) : u < 0.45 ? g.sgn() * g.logu(1e2, 1e6) : g.uni(-2, 2); }
static Sh rand_sh(Rng &g) { Sh s; s.L = g.i(0, 10); s.o = {{g.uni(-30, 30), g.uni(-30, 30), g.chance(0.2) ? -0.0 : g.uni(-3, 3)}}; int n = g.chance(0.1) ? g.i(20, 60) : g.i(1, 8); for (int i = 0; i < n; i++) { s.c.push_back(special_coef(g)); s.a.push_back(g.chance(0.05) ? g.logu(1e7, 1e13) : g.chance(0.05) ? g.logu(1e-9, 1e-4) : g.logu(1e-4, 1e8)); } return s; }
static Pt rand_pt(Rng &g, int nmin = 0) { Pt p; p.L = g.i(0, 10); p.J = p.L ? 2 * p.L + (g.chance(0.5) ? 1 : -1) : 1; int n = g.chance(0.1) ? g.i(20, 60) : g.i(nmin, 8); for (int i = 0; i < n; i++) { p.c.push_back(special_coef(g)); p.n.push_back(g.i(0, 2)); p.a.push_back(g.chance(0.05) ? 0.0 : g.chance(0.05) ? g.logu(1e5, 1e13) : g.logu(1e-5, 1e5)); } return p; }
static bool pot_value(Ctx &x, Rng &g, libgrpp_potential_t *p, const Pt &s)
{
    for (int k = 0; k < 4; k++) {
        double r = g.chance(0.1) ? 1.0 : g.logu(1e-6, 30); if (k == 3 && std::count(s.n.begin(), s.n.end(), 2) == (long) s.n.size()) r = 0;
        ld v = 0, sc = 0, dr = 0; for (size_t i = 0; i < s.c.size(); i++) { ld t = (ld) s.c[i] * (s.n[i] == 2 ? 1 : powl(r, s.n[i] - 2)) * expl(-(ld) s.a[i] * r * r); v += t; sc += fabsl(t) * (1 + (ld) s.a[i] * r * r); if (std::fabs(s.c[i]) < 1.01e-14) dr += 1.01L * fabsl(t); }
        double w = libgrpp_potential_value(p, r); ld e = fabsl(w - v);
        x.count("values"); if (sc > 0) x.maxi("value_error_over_tolerance", (double) (std::max<ld>(0, e - dr) / (8e-15L * sc + 1e-300L)));
        if (!(e <= dr + 8e-15L * sc + 1e-300L)) { x.fail(sf("value of the potential at r = %.17g is %.17g, the sum of its terms %.17Lg", r, w, v)); return false; }
    }
    return true;
}
static void c24(Ctx &x)
{
    Rng g = x.rng(); libgrpp_set_default_parameters();
    // shells
    Sh s = rand_sh(g); x.desc(js(s)); x.nontrivial(x.cur);
    { Sh t = s; libgrpp_shell_t *p = libgrpp_new_shell(t.o.data(), t.L, (int) t.c.size(), t.c.data(), t.a.data());
      for (auto &v : t.c) v = 777; for (auto &v : t.a) v = -3; t.o = {{9, 9, 9}};
      if (!shell_is(x, p, s, "(sources overwritten after construction)") || libgrpp_get_shell_size(p) != csize(s.L)) return;
      libgrpp_shell_t *q = libgrpp_shell_deep_copy(p);
      if (!shell_is(x, q, s, "(deep copy)")) return;
      for (int i = 0; i < p->num_primitives; i++) { p->coeffs[i] = 5; p->alpha[i] = 6; } p->origin[0] = 99; for (int i = 0; i < 3 * p->cart_size; i++) p->cart_list[i] = -7;
      if (!shell_is(x, q, s, "(deep copy, source overwritten)")) return;
      libgrpp_delete_shell(p);
      std::vector<void *> junk; for (int i = 0; i < 6; i++) { void *m = malloc(8 * s.c.size() + 8 * i); memset(m, 0xEE, 8 * s.c.size() + 8 * i); junk.push_back(m); }
      bool ok = shell_is(x, q, s, "(deep copy, source deleted)"); for (void *m : junk) free(m); if (!ok) return;
      // shrink
      libgrpp_shell_shrink(q); int k = 0, bad = 0;
      for (size_t i = 0; i < s.c.size(); i++) { if (k < q->num_primitives && beq(q->coeffs[k], s.c[i]) && beq(q->alpha[k], s.a[i]) && s.c[i] != 0) { k++; continue; } if (std::fabs(s.c[i]) > 1.01e-14) bad = 1; }
      if (bad || k != q->num_primitives || q->L != s.L || !beq(q->origin[0], s.o[0]) || !beq(q->origin[1], s.o[1]) || !beq(q->origin[2], s.o[2]) || q->cart_size != csize(s.L)) { x.fail("shrinking a shell lost or changed more than negligible primitives"); return; }
      libgrpp_shell_mult_normcoef(q); k = 0;
      for (size_t i = 0; i < s.c.size(); i++) if (k < q->num_primitives && beq(q->alpha[k], s.a[i]) && s.c[i] != 0) {
          ld w = (ld) s.c[i] * powl(2 * (ld) s.a[i] / M_PIl, 0.75L) * powl(4 * (ld) s.a[i], 0.5L * s.L); double e = (double) fabsl(q->coeffs[k] / w - 1); x.maxi("norm_relative_error", e);
          if (!(e < 1e-13)) { x.fail(sf("normalising coefficient of exponent %.17g, L = %d: %.17g instead of %.17Lg", s.a[i], s.L, q->coeffs[k], w)); return; }
          k++;
      }
      libgrpp_delete_shell(q); }
    // potentials
    Pt u = rand_pt(g); x.desc(js(u));
    { Pt t = u; t.n.push_back(0); t.c.push_back(1e30); t.a.push_back(1);       // one element beyond the announced length
      libgrpp_potential_t *p = libgrpp_new_potential(t.L, t.J, (int) u.c.size(), t.n.data(), t.c.data(), t.a.data());
      for (auto &v : t.c) v = 777; for (auto &v : t.a) v = -3; for (auto &v : t.n) v = 55;
      if (!pot_is(x, p, u, "(sources overwritten after construction)") || !pot_value(x, g, p, u)) return;
      libgrpp_potential_t *q = libgrpp_shrink_potential(p);
      if (!pot_is(x, p, u, "(source of a shrunken copy)") || !pot_is(x, q, u, "(shrunken copy)") || !pot_value(x, g, q, u)) return;
      if (q->num_primitives) { q->coeffs[0] = 42; q->alpha[0] = 43; q->powers[0] = 1; if (!pot_is(x, p, u, "(shrunken copy overwritten)")) return; }
      libgrpp_delete_potential(q); if (!pot_is(x, p, u, "(shrunken copy deleted)")) return;
      for (int i = 0; i < p->num_primitives; i++) if (g.chance(0.4)) { p->coeffs[i] = g.pick({0.0, 1e-15, 3.0}); }     // terms that became negligible
      Pt v; v.L = u.L; v.J = u.J; for (int i = 0; i < p->num_primitives; i++) { v.c.push_back(p->coeffs[i]); v.n.push_back(p->powers[i]); v.a.push_back(p->alpha[i]); }
      q = libgrpp_shrink_potential(p);
      bool z = false; for (int i = 0; i < q->num_primitives; i++) z = z || q->coeffs[i] == 0;
      if (z) { x.fail("shrinking a potential kept terms with coefficient zero"); return; }
      if (!pot_is(x, q, v, "(shrunken copy after terms became negligible)")) return;
      libgrpp_delete_potential(q); libgrpp_delete_potential(p); }
    // containers
    int big = g.chance(0.3); std::vector<Pt> ar, es; std::vector<Oc> oc; Pt loc; bool has = false;
    libgrpp_grpp_t *G = libgrpp_new_grpp();
    if (G->n_arep || G->n_esop || G->n_oc_shells || G->U_L) { x.fail("a new pseudopotential object is not empty"); return; }
    int ops = big ? g.i(100, 900) : g.i(0, 25), bias = g.i(0, 3);
    x.desc(sf("{\"container_operations\":%d}", ops)); x.maxi("longest_list", 0);
    auto check = [&](const char *w) {
        if (G->n_arep != (int) ar.size() || G->n_esop != (int) es.size() || G->n_oc_shells != (int) oc.size() || !!G->U_L != has) { x.fail(sf("pseudopotential object holds %d/%d/%d parts (local part %d) instead of %d/%d/%d (%d) %s", G->n_arep, G->n_esop, G->n_oc_shells, !!G->U_L, (int) ar.size(), (int) es.size(), (int) oc.size(), has, w)); return false; }
        if (has && !pot_is(x, G->U_L, loc, "as local part")) return false;
        for (size_t i = 0; i < ar.size(); i++) if (!pot_is(x, G->U_arep[i], ar[i], sf("as averaged part %d of %d", (int) i, (int) ar.size()).c_str())) return false;
        for (size_t i = 0; i < es.size(); i++) if (!pot_is(x, G->U_esop[i], es[i], sf("as spin-orbit part %d of %d", (int) i, (int) es.size()).c_str())) return false;
        for (size_t i = 0; i < oc.size(); i++) if (!pot_is(x, G->U_oc[i], oc[i].pot, sf("as outercore part %d of %d", (int) i, (int) oc.size()).c_str()) || !shell_is(x, G->oc_shells[i], oc[i].sh, "as outercore shell")) return false;
        return true;
    };
    for (int k = 0; k < ops; k++) {
        int op = bias < 3 && g.chance(0.7) ? bias : g.i(0, 2); if (g.chance(0.02) || (k == 0 && g.chance(0.5))) op = 3;
        Pt p = rand_pt(g); if (big) { p.c.resize(std::min<size_t>(p.c.size(), 3)); p.n.resize(p.c.size()); p.a.resize(p.c.size()); }
        if (op == 0) { ar.push_back(p); libgrpp_grpp_add_averaged_potential(G, new_lpt(p)); }
        else if (op == 1) { es.push_back(p); libgrpp_grpp_add_spin_orbit_potential(G, new_lpt(p)); }
        else if (op == 2) { Oc q; q.pot = p; q.sh = rand_sh(g); q.sh.L = std::min(q.sh.L, 3); oc.push_back(q); libgrpp_grpp_add_outercore_potential(G, new_lpt(q.pot), new_lsh(q.sh)); }
        else { loc = p; has = true; libgrpp_grpp_set_local_potential(G, new_lpt(p)); }
        x.count("container_operations");
        if (!big || k % 97 == 96 || k % 100 == 0) if (!check(sf("after %d additions", k + 1).c_str())) return;
    }
    x.maxi("longest_list", std::max(std::max(ar.size(), es.size()), oc.size()));
    if (!check("at the end")) return;
    libgrpp_delete_grpp(G);
}
static Reg r24("C24", c24, lib_init);

// ---------------------------------------------------------------- C26 normalisation and scaling
extern "C" void radial_gto_norm_factor_(int *L, int *num_primitives, double *coeffs, double *alpha, double *norm);
static double scale_power(int fn)      // block(scaled) = s^p block
{
    double p = is_grad(fn) ? -1 : 0; int b = base_fn(fn);
    if (b == KIN) p -= 2; if (b == MOM || is_nuc(fn)) p -= 1;
    return p;
}
static void c26(Ctx &x)
{
    Rng g = x.rng();
    if (x.idx % 4 == 3) {      // closed forms
        GenOpt o; Sh s; int L = (int) (x.idx / 4 % 11); gen_shell(g, s, L, 0, o); if (g.chance(0.4)) { s.c = {1}; s.a = {g.logu(1e-3, 1e6)}; } s.o = g.uni(0, 5) * rand_dir(g);
        x.desc(js(s)); x.nontrivial(x.cur); x.count("closed_forms");
        ld S = 0, Sa = 0; for (size_t i = 0; i < s.c.size(); i++) for (size_t j = 0; j < s.c.size(); j++) { ld t = (ld) s.c[i] * s.c[j] * powl(2 * sqrtl((ld) s.a[i] * s.a[j]) / ((ld) s.a[i] + s.a[j]), L + 1.5L); S += t; Sa += fabsl(t); }
        Case c; c.fn = OVL; c.A = c.B = s; auto M = run(c); auto co = cart_order(L); int n = csize(L);
        auto df = [](int k) { ld v = 1; for (; k > 1; k -= 2) v *= k; return v; };
        for (int i = 0; i < n; i++) {
            ld w = df(2 * co[i][0] - 1) * df(2 * co[i][1] - 1) * df(2 * co[i][2] - 1), e = fabsl(M[0][i * n + i] - w * S), t = 1e-13L * w * Sa;
            x.maxi("self_overlap_error_over_tolerance", (double) (e / t)); x.count("elements_compared");
            if (!(e <= t)) { x.fail(sf("self-overlap of component %d is %.17g instead of %.17Lg", i, M[0][i * n + i], w * S)); return; }
        }
        if (S < 1e-6L * Sa) return;
        int np = (int) s.c.size(); double nf = NAN; radial_gto_norm_factor_(&L, &np, s.c.data(), s.a.data(), &nf);
        ld w = 1 / sqrtl(S), e = fabsl(nf - w) / w, t = 1e-13L * Sa / S; x.maxi("norm_factor_error_over_tolerance", (double) (e / t)); x.count("norm_factors");
        if (!(e <= t)) { x.fail(sf("radial norm factor is %.17g instead of %.17Lg", nf, w)); return; }
        // with it the contracted components are normalised: the block of L=0..., x^L component has self-overlap (2L-1)!!
        Case d = c; for (auto &v : d.A.c) v *= nf; d.B.c = d.A.c; auto N = run(d); ld q = df(2 * L - 1);
        if (!(fabsl(N[0][0] / q - 1) <= 2e-13L * Sa / S)) { x.fail(sf("renormalised shell has self-overlap %.17g instead of %.17Lg", N[0][0], q)); return; }
        return;
    }
    int fn = ALLF[x.idx / 4 % 20]; GenOpt o = opt_for(g, fn); o.geo = (int) (x.idx / 80 % NGEO); Case c = gen_case(g, fn, o);
    double s = g.pick({2.0, 0.5, 1.5, 0.75, 1.25}); if (!is_semi(fn) && !(is_nuc(fn) && fn != NPT)) s = g.chance(0.3) ? g.logu(0.05, 20) : s;
    if (is_semi(fn) || is_nuc(fn)) { auto cl = [&](Sh &h) { double d = nrm(h.o - c.C); for (auto &a : h.a) a = std::min(a, std::min(resolvable_exponent(d), s * s * resolvable_exponent(s * d))); }; cl(c.A); cl(c.B); }
    Case d = c; auto sc = [&](V3 &v) { v = s * v; }; sc(d.A.o); sc(d.B.o); sc(d.C); sc(d.P);
    if (c.P == c.A.o) d.P = d.A.o; else if (c.P == c.B.o) d.P = d.B.o; else if (c.P == c.C) d.P = d.C;
    auto sh = [&](Sh &h) { for (auto &a : h.a) a /= s * s; }; sh(d.A); sh(d.B);
    auto pt = [&](Pt &p) { for (size_t i = 0; i < p.c.size(); i++) { p.a[i] /= s * s; p.c[i] *= std::pow(s, 2 - p.n[i]); } }; pt(d.U); if (d.gr.has_loc) pt(d.gr.loc);
    for (auto &p : d.gr.arep) pt(p); for (auto &p : d.gr.esop) pt(p); for (auto &q : d.oc) { pt(q.pot); sh(q.sh); sc(q.sh.o); } for (auto &q : d.gr.oc) { pt(q.pot); sh(q.sh); sc(q.sh.o); }
    for (size_t i = 0; i < d.prm.size(); i++) if (i < 2) d.prm[i] *= s;
    x.desc("{\"case\":" + js(c) + sf(",\"scale\":%.17g}", s)); x.count(std::string("fn_") + FN_NAME[fn]);
    auto M = run(c), N = run(d); auto Tc = tolerances(c), Td = tolerances(d); double f = std::pow(s, scale_power(fn));
    if (maxabs(M) > 1e-13) x.nontrivial(x.cur);
    for (size_t m = 0; m < M.size(); m++) {
        std::vector<ld> w, t; for (size_t i = 0; i < M[m].size(); i++) { w.push_back((ld) f * M[m][i]); t.push_back((ld) f * Tc[m].tol[i] + Td[m].tol[i]); }
        if (!cmp_tol(x, std::string(FN_NAME[fn]) + sf("[%d] with all lengths multiplied by %g", (int) m, s), N[m], w, t)) return;
    }
}
static Reg r26("C26", c26, lib_init);

// ---------------------------------------------------------------- C28 accuracy settings
static void c28(Ctx &x)
{
    Rng g = x.rng(); static const int F[] = {T2, SO, NNUM, NFERMI, OC, T2, GT2, NGAUSS, FULL, T1, OVL, SO, NBALL, GSO, NBUB, GT1, KIN, NPT, GOC, GFULL};
    int fn = F[x.idx % 20]; GenOpt o = opt_for(g, fn); o.Lmax = std::min(o.Lmax, 4); o.budget = std::min(o.budget, 600.0); o.geo = (int) (x.idx / 20 % NGEO); o.amax = 60;
    libgrpp_set_default_parameters();
    if (x.idx % 200 == 7) {   // the settings are really used
        int changed = 0; x.desc("{\"fn\":\"type2\",\"note\":\"40 cases, tolerance 1e-2 against the default\"}");
        for (int k = 0; k < 40; k++) { GenOpt q; q.geo = GEO_GEN; q.Lmax = 2; q.lmax = 2; q.ncmax = 2; q.npmax = 2; Case c = gen_case(g, T2, q); auto M = run(c); libgrpp_set_radial_tolerance(1e-2); auto N = run(c); libgrpp_set_default_parameters(); changed += !same_bits(M, N); }
        x.count("cases_changed_by_loose_tolerance", changed);
        if (!changed) x.fail("a radial tolerance of 1e-2 changes no result at all: the setting is not used");
    }
    Case c = gen_case(g, fn, o); x.desc(js(c)); x.count(std::string("fn_") + FN_NAME[fn]);
    auto M0 = run(c); auto R = reference(c); int n = c.size();
    if (maxabs(M0) > 1e-13) x.nontrivial(x.cur);
    bool num = is_semi(fn) || (is_nuc(fn) && fn != NPT);
    double ca = 0, cb = 0; for (double v : c.A.c) ca += std::fabs(v); for (double v : c.B.c) cb += std::fabs(v);
    int ex = is_grad(fn) ? 1 : 0; double amp = 1; if (ex) { for (double a : c.A.a) amp = std::max(amp, 2 * std::sqrt(a)); for (double a : c.B.a) amp = std::max(amp, 2 * std::sqrt(a)); }
    double ns = 1; if (base_fn(fn) == OC || base_fn(fn) == FULL) { auto &l = base_fn(fn) == OC ? c.oc : c.gr.oc; double t = 0; for (auto &q : l) { double u = 0; for (size_t i = 0; i < q.pot.c.size(); i++) u += std::fabs(q.pot.c[i]) * (q.pot.n[i] < 2 ? 100 : 1); double b = 0; for (double v : q.sh.c) b += std::fabs(v); t += 1 + u * b; } ns += t * t + c.gr.arep.size() + c.gr.esop.size() + t; ns += t; }
    double scale = 16 * M_PI * M_PI * std::pow(1 + nrm(c.A.o - c.C), c.A.L + ex) * std::pow(1 + nrm(c.B.o - c.C), c.B.L + ex) * std::max(1.0, ca) * std::max(1.0, cb) * amp * ns;
    if (base_fn(fn) == OC) scale *= 1e-3;
    if (is_nuc(fn)) scale *= 0.2;
    for (int k = 0; k < 5; k++) {
        double tol = k == 4 ? 1e-16 : std::pow(10.0, -g.uni(2, 17)); int which = g.i(0, 3);
        libgrpp_set_default_parameters();
        if (which == 0 || which == 3) libgrpp_set_radial_tolerance(tol);
        if (which == 1 || which == 3) libgrpp_set_angular_screening_tolerance(which == 1 ? tol : std::pow(10.0, -g.uni(8, 17)));
        if (which == 2 || which == 3) libgrpp_set_modified_bessel_tolerance(which == 2 ? tol : std::pow(10.0, -g.uni(8, 17)));
        double te = which == 3 ? std::max(tol, 1e-8) : tol;
        auto M = run(c);
        for (size_t m = 0; m < M.size(); m++) for (int i = 0; i < n; i++) {
            double e = (double) fabsl(M[m][i] - R[m].v[i]), lim = (double) R[m].tol[i] + (num ? te * scale : 0), q = e == 0 ? 0 : e / lim;
            x.maxi(num ? sf("error_over_bound_%s", FN_NAME[fn]) : "error_over_bound_analytic", q);
            if (!(q <= 1)) { libgrpp_set_default_parameters(); x.fail(sf("%s[%d]: with tolerances radial %.3g, angular %.3g, Bessel %.3g element %d is %.17g, expected %.17Lg (allowed error %.3g)", FN_NAME[fn], (int) m, which == 0 || which == 3 ? tol : 1e-16, which == 1 ? tol : 1e-16, which == 2 ? tol : 1e-16, i, M[m][i], R[m].v[i], lim)); return; }
        }
        x.count("settings_tried");
        // in force at once and without memory: the same call again, after other settings and other calls
        libgrpp_parameters_t keep = libgrpp_params;
        libgrpp_set_radial_tolerance(1e-5); Case d = c; d.A.L = std::max(0, c.A.L - 1); run(d); libgrpp_set_default_parameters();
        libgrpp_set_radial_tolerance(keep.radial_tolerance); libgrpp_set_angular_screening_tolerance(keep.angular_screening_tolerance); libgrpp_set_modified_bessel_tolerance(keep.modified_bessel_tolerance);
        std::string wh; auto M2 = run(c);
        if (!same_bits(M, M2, &wh)) { libgrpp_set_default_parameters(); x.fail("the same call under the same settings differs: " + wh); return; }
    }
    libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE); libgrpp_set_cartesian_generator(gen_reverse); libgrpp_set_radial_tolerance(0.5);
    libgrpp_set_default_parameters(); std::string wh; auto M1 = run(c);
    if (!same_bits(M0, M1, &wh)) x.fail("restoring the defaults does not restore the results: " + wh);
}
static Reg r28("C28", c28, lib_init);

// ---------------------------------------------------------------- C30 life cycle (library untouched in this process: children only)
struct Res30 { std::atomic<int> state; double v[12 * 66 * 66]; };
static Res30 *sh30;
static void c30_init(Ctx &) { sh30 = (Res30 *) mmap(0, 40 * sizeof(Res30), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void put(Res30 &r, const std::vector<Mat> &M) { double *p = r.v; for (auto &m : M) { memcpy(p, m.data(), 8 * m.size()); p += m.size(); } r.state = 1; }
static bool same30(const Res30 &a, const Res30 &b, size_t n) { for (size_t i = 0; i < n; i++) if (memcmp(&a.v[i], &b.v[i], 8) && !(a.v[i] == b.v[i])) return false; return true; }
template<class F> static int child(F f)
{
    fflush(0); pid_t p = fork();
    if (p == 0) {
        struct rlimit r0 = {0, 0}; setrlimit(RLIMIT_CORE, &r0); int fd = open("/dev/null", O_WRONLY); dup2(fd, 2);
        alarm(60); f(); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0); return st;
}
struct Th30 { pthread_barrier_t *bar; const Case *c; Res30 *out; int mode; int rep; };
static void *thread30(void *v)
{
    Th30 &t = *(Th30 *) v; pthread_barrier_wait(t.bar);
    for (volatile int i = 0; i < t.rep; i++) ;
    libgrpp_init(); if (t.mode) libgrpp_init();
    bool ready = libgrpp_is_initialized();
    put(*t.out, run(*t.c)); if (!ready) t.out->state = 3;
    return 0;
}
static void c30(Ctx &x)
{
    Rng g = x.rng(); int kind = (int) (x.idx % 4); int fn = ALLF[x.idx / 4 % 20]; GenOpt o = opt_for(g, fn); o.Lmax = std::min(o.Lmax, g.chance(0.2) ? 8 : 3); o.budget = std::min(o.budget, 200.0); o.ncmax = 2; o.npmax = 2; if (fn == GOC || fn == GFULL) o.Lmax = 1, o.lmax = 2;
    Case c = gen_case(g, fn, o); size_t n = (size_t) FN_NOUT[fn] * c.size();
    for (int i = 0; i < 40; i++) sh30[i].state = 0;
    static const char *KN[] = {"use_before_initialisation", "use_after_finalisation", "many_threads_initialise", "random_history"};
    x.desc(sf("{\"kind\":\"%s\",\"case\":", KN[kind]) + js(c) + "}"); x.count(KN[kind]); x.count(std::string("fn_") + FN_NAME[fn]); x.nontrivial(x.cur);
    // reference: plain initialisation
    int st = child([&] { libgrpp_init(); put(sh30[0], run(c)); });
    if (st || sh30[0].state != 1) { x.fail(sf("plain initialisation and one call: process status %d", st)); return; }
    if (kind < 2) {
        st = child([&] {
            if (libgrpp_is_initialized()) { sh30[1].state = 4; _exit(0); }
            if (kind == 1) { libgrpp_init(); if (g.chance(0.5)) run(c); libgrpp_finalize(); if (libgrpp_is_initialized()) { sh30[1].state = 5; _exit(0); } }
            put(sh30[1], run(c));
        });
        int s = sh30[1].state;
        if (s == 4) x.fail("the library reports to be initialised before any initialisation");
        else if (s == 5) x.fail("the library reports to be initialised after finalisation");
        else if (s == 1) { x.count("answered"); if (!same30(sh30[0], sh30[1], n)) x.fail(std::string("wrong result of ") + FN_NAME[fn] + " instead of a refusal (" + KN[kind] + ")"); }
        else { if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) x.count("refused_by_abort"); else if (WIFEXITED(st) && WEXITSTATUS(st)) x.count("refused_by_exit"); else x.fail(sf("use without initialisation ends with signal %d instead of a refusal", WIFSIGNALED(st) ? WTERMSIG(st) : -1)); }
        return;
    }
    if (kind == 2) {
        int nt = g.i(2, 12); x.count("threads", nt); int pre = g.i(0, 2); std::vector<int> rp; for (int i = 0; i < nt; i++) rp.push_back(g.chance(0.5) ? 0 : (int) g.logu(1, 3e6));
        st = child([&] {
            if (pre) { libgrpp_init(); if (pre == 2) libgrpp_finalize(); }
            pthread_barrier_t b; pthread_barrier_init(&b, 0, nt); std::vector<pthread_t> th(nt); std::vector<Th30> a(nt);
            for (int i = 0; i < nt; i++) { a[i] = {&b, &c, &sh30[1 + i], i % 2, rp[i]}; pthread_create(&th[i], 0, thread30, &a[i]); }
            for (auto t : th) pthread_join(t, 0);
        });
        if (st) { x.fail(sf("%d threads initialising at once: process status %d", nt, st)); return; }
        for (int i = 0; i < nt; i++) {
            if (sh30[1 + i].state == 3) { x.fail("a thread that has initialised the library is told that it is not"); return; }
            if (!same30(sh30[0], sh30[1 + i], n)) { x.fail(sf("thread %d of %d that initialised at the same time got another result", i, nt)); return; }
        }
        return;
    }
    // random history of initialisations and finalisations
    int len = g.i(1, 30); std::string hist; for (int i = 0; i < len; i++) hist += g.chance(0.3) ? "F" : g.chance(0.6) ? "I" : "c"; bool many = g.chance(0.1);
    x.desc(sf("{\"kind\":\"random_history\",\"history\":\"%s\",\"case\":", hist.c_str()) + js(c) + "}");
    st = child([&] {
        int on = 0;
        if (many) for (int i = 0; i < 300; i++) { libgrpp_init(); if (i % 2) libgrpp_finalize(); on = i % 2 == 0; }
        for (char h : hist) {
            if (h == 'I') { libgrpp_init(); on = 1; } else if (h == 'F') { libgrpp_finalize(); on = 0; } else if (on) put(sh30[2], run(c));
            if (!!libgrpp_is_initialized() != on) { sh30[1].state = 6; _exit(0); }
            if (sh30[2].state == 1 && !same30(sh30[0], sh30[2], n)) { sh30[1].state = 7; _exit(0); }
        }
        libgrpp_init(); put(sh30[1], run(c));
    });
    x.count("history_steps", len);
    if (sh30[1].state == 6) x.fail("is_initialized does not tell the truth");
    else if (sh30[1].state == 7 || (sh30[1].state == 1 && !same30(sh30[0], sh30[1], n))) x.fail("results after initialise/finalise cycles differ");
    else if (st || sh30[1].state != 1) x.fail(sf("process ended (status %d) in a history of initialisations", st));
}
static Reg r30("C30", c30, c30_init);
