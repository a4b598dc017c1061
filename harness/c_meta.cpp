// Monitors of relations between executions: sums of parts, exchange of the functions, rotations and translations, linearity,
// identities between families, definiteness, nearly coincident centres.
#include "mon.hpp"

static void lib_init(Ctx &) { libgrpp_init(); }
static double big(const std::vector<RefT> &R) { return 0; }
static void seen(Ctx &x, const Case &c, const std::vector<Mat> &M) { x.count(std::string("fn_") + FN_NAME[c.fn]); if (maxabs(M) > 1e-13) x.nontrivial(x.cur); }

// ---------------------------------------------------------------- C06 the full operator is the sum of its parts
static void add_part(std::vector<Mat> &S, std::vector<Mat> &Ab, const std::vector<Mat> &M, int off, double f)
{
    for (size_t m = 0; m < M.size(); m++) for (size_t i = 0; i < M[m].size(); i++) { S[off + m][i] += f * M[m][i]; Ab[off + m][i] += std::fabs(f * M[m][i]); }
}
static void c06(Ctx &x)
{
    Rng g = x.rng(); GenOpt o; o.Lmax = g.chance(0.1) ? 8 : 4; o.lmax = 5; o.ncmax = 6; o.budget = 4000; o.geo = (int) (x.idx % NGEO);
    bool grad = x.idx % 4 == 3; if (grad) { o.Lmax = 4; o.budget = 3000; }
    Case c = gen_case(g, grad ? GFULL : FULL, o);
    if (g.chance(0.25)) {     // long lists of parts
        int n = g.i(5, 12); GenOpt p; p.npmax = 2; p.amax = 20;
        for (int i = 0; i < n; i++) { Pt q; gen_pot(g, q, g.i(0, 2), p); if (g.chance(0.5)) c.gr.arep.push_back(q); else { if (q.L == 0) q.L = q.J = 1; c.gr.esop.push_back(q); } }
    }
    if (g.chance(0.1)) c.gr.arep.clear();
    if (g.chance(0.1)) c.gr.esop.clear();
    if (g.chance(0.05)) { c.gr.oc.clear(); c.gr.arep.clear(); c.gr.esop.clear(); }
    x.desc(js(c));
    int no = FN_NOUT[c.fn], n = c.size();
    auto M = run(c); seen(x, c, M);
    std::vector<Mat> S(no, Mat(n, 0)), Ab = S;
    auto part = [&](int f, int fg, int off, const Pt &U, double w) { Case d = c; d.fn = grad ? fg : f; d.U = U; add_part(S, Ab, run(d), off, w); x.count("parts"); };
    if (c.gr.has_loc) part(T1, GT1, 0, c.gr.loc, 1);
    for (auto &p : c.gr.arep) part(T2, GT2, 0, p, 1);
    for (auto &p : c.gr.esop) part(SO, GSO, grad ? 3 : 1, p, 2.0 / (2 * p.L + 1));
    { Case d = c; d.fn = grad ? GOC : OC; d.oc = c.gr.oc; add_part(S, Ab, run(d), 0, 1); }
    std::vector<RefT> GT; if (grad) GT = tolerances(c);      // gradients are differences: rounding is judged against the terms, not the results
    auto judge = [&](const std::vector<Mat> &R, const char *what) {
        for (int m = 0; m < no; m++) {
            double mx = 0; for (double v : Ab[m]) mx = std::max(mx, v);
            std::vector<ld> t(n); for (int i = 0; i < n; i++) t[i] = 1e-12 * Ab[m][i] + 1e-15 * mx + 1e-290 + (grad ? GT[m].tol[i] : 0);
            if (!cmp_tol(x, std::string(what) + sf("[%d]", m), R[m], to_ld(S[m]), t)) return false;
        }
        return true;
    };
    if (!judge(M, "full operator against the sum of its parts")) return;
    // the order in which the parts were added does not matter
    Case d = c; auto &G = d.gr;
    std::reverse(G.arep.begin(), G.arep.end()); std::reverse(G.esop.begin(), G.esop.end()); std::reverse(G.oc.begin(), G.oc.end());
    if (!judge(run(d), "full operator with its parts added in reverse order")) return;
}
static Reg r06("C06", c06, lib_init);

// ---------------------------------------------------------------- C11 exchange of the two functions
static GenOpt opt_meta(Rng &g, int fn)
{
    GenOpt o; o.ncmax = 6; o.Lmax = 10; o.lmax = g.chance(0.2) ? 10 : 5; o.budget = 2500;
    if (is_nuc(fn) && fn != NPT) o.budget = 300;
    if (fn == T1 || fn == GT1) { o.ncmax = 3; o.npmax = 3; if (fn == GT1) o.Lmax = g.chance(0.3) ? 9 : 5; }
    if (fn == OC || fn == FULL) { o.Lmax = g.chance(0.1) ? 8 : 5; o.lmax = 4; }
    if (fn == GOC || fn == GFULL) { o.Lmax = 3; o.lmax = 3; o.ncmax = 3; o.budget = 1200; }
    if (fn == GT2 || fn == GSO) { o.Lmax = 6; o.budget = 1500; }
    if (fn == GOVL) o.Lmax = 9;
    return o;
}
// sign under exchange of the functions for output m
static double exch_sign(int fn, int m)
{
    switch (fn) {
    case MOM: case SO: case GSO: return -1;
    case OC: case FULL: return m == 0 ? 1 : -1;
    case GOC: case GFULL: return m < 3 ? 1 : -1;
    }
    return 1;
}
static void c11(Ctx &x)
{
    Rng g = x.rng(); int fn = ALLF[x.idx % 20];
    GenOpt o = opt_meta(g, fn); o.geo = (int) (x.idx / 20 % NGEO);
    if (!is_semi(fn) && !is_nuc(fn)) { o.amax = g.chance(0.2) ? 1e4 : 100; long k = x.idx / 20; if (g.chance(0.5)) { o.LA = (int) (k % (o.Lmax + 1)); o.LB = g.i(0, o.Lmax); } }
    Case c = gen_case(g, fn, o), d = c; std::swap(d.A, d.B);
    x.desc(js(c));
    auto M = run(c), N = run(d); seen(x, c, M);
    auto Tc = tolerances(c), Td = tolerances(d);
    int nA = csize(c.A.L), nB = csize(c.B.L);
    for (size_t m = 0; m < M.size(); m++) {
        double s = exch_sign(fn, (int) m); std::vector<ld> w(nA * nB), t(nA * nB);
        for (int i = 0; i < nA; i++) for (int j = 0; j < nB; j++) { w[i * nB + j] = s * N[m][j * nA + i]; t[i * nB + j] = Tc[m].tol[i * nB + j] + Td[m].tol[j * nA + i]; }
        if (!cmp_tol(x, std::string(FN_NAME[fn]) + sf("[%d] of (A,B) against (B,A)", (int) m), M[m], w, t)) return;
    }
}
static Reg r11("C11", c11, lib_init);

// ---------------------------------------------------------------- C12 rotations, reflections, translations
// monomials of degree L: (function with exponents of column j, rotated) = sum_i T[i][j] (monomial i)
static std::vector<std::vector<ld>> mono_matrix(int L, const ld R[3][3])
{
    auto co = cart_order(L); int n = (int) co.size(); std::map<std::array<int, 3>, int> pos; for (int i = 0; i < n; i++) pos[co[i]] = i;
    std::vector<std::vector<ld>> T(n, std::vector<ld>(n, 0));
    for (int j = 0; j < n; j++) {       // (R^-1 x)_d = sum_e R[e][d] x_e
        std::map<std::array<int, 3>, ld> p; p[{{0, 0, 0}}] = 1;
        for (int d = 0; d < 3; d++) for (int k = 0; k < co[j][d]; k++) {
            std::map<std::array<int, 3>, ld> q;
            for (auto &t : p) for (int e = 0; e < 3; e++) if (R[e][d] != 0) { auto u = t.first; u[e]++; q[u] += t.second * R[e][d]; }
            p = q;
        }
        for (auto &t : p) T[pos[t.first]][j] = t.second;
    }
    return T;
}
static void c12(Ctx &x)
{
    Rng g = x.rng(); int fn = ALLF[x.idx % 20]; if (fn == NNUM && g.chance(0.5)) fn = T2;
    GenOpt o = opt_meta(g, fn); o.geo = (int) (x.idx / 20 % NGEO);
    Case c = gen_case(g, fn, o);
    // exact rotation: a signed permutation or a rational matrix from an integer quaternion (coordinates are then multiples of its denominator)
    ld R[3][3]; int kind = g.i(0, 9); long N = 1; long I[3][3]; int det = 1;
    if (kind < 4) {
        int p[3] = {0, 1, 2}; for (int i = 2; i > 0; i--) std::swap(p[i], p[g.i(0, i)]);
        for (auto &r : I) for (auto &v : r) v = 0;
        for (int i = 0; i < 3; i++) I[i][p[i]] = g.chance(0.5) ? 1 : -1;
    } else if (kind < 8) {
        long a = g.i(-3, 3), b = g.i(-3, 3), cc = g.i(-3, 3), d = g.i(-3, 3); if (!a && !b && !cc && !d) a = 1;
        N = a * a + b * b + cc * cc + d * d;
        long Q[3][3] = {{a * a + b * b - cc * cc - d * d, 2 * (b * cc - a * d), 2 * (b * d + a * cc)}, {2 * (b * cc + a * d), a * a - b * b + cc * cc - d * d, 2 * (cc * d - a * b)},
                        {2 * (b * d - a * cc), 2 * (cc * d + a * b), a * a - b * b - cc * cc + d * d}};
        int inv = g.chance(0.4) ? -1 : 1;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) I[i][j] = inv * Q[i][j];
    } else { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) I[i][j] = i == j; }        // translation only
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = (ld) I[i][j] / N;
    { ld dt = R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0]) + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]); det = dt > 0 ? 1 : -1; }
    const double q = 1.0 / 4096;
    auto snap = [&](V3 &v) { for (auto &z : v) z = std::nearbyint(z / (N * q)) * N * q; };
    bool pa = c.P == c.A.o, pb = c.P == c.B.o, pc = c.P == c.C;
    snap(c.A.o); snap(c.B.o); snap(c.C); snap(c.P);
    if (is_grad(fn)) { if (pa) c.P = c.A.o; else if (pb) c.P = c.B.o; else if (pc) c.P = c.C; }
    for (auto &z : c.oc) snap(z.sh.o); for (auto &z : c.gr.oc) snap(z.sh.o);
    V3 t{{0, 0, 0}}; if (kind >= 8 || g.chance(0.5)) for (auto &z : t) z = q * g.i(-80000, 80000);
    // after snapping the distances may have grown: keep the exponents resolvable
    if (is_grad(fn)) c.P = g.chance(0.4) ? c.A.o : g.chance(0.6) ? c.B.o : c.C;
    if (is_semi(fn) || is_nuc(fn)) { for (auto &a : c.A.a) a = std::min(a, std::max(0.1, resolvable_exponent(nrm(c.A.o - c.C)))); for (auto &a : c.B.a) a = std::min(a, std::max(0.1, resolvable_exponent(nrm(c.B.o - c.C)))); }
    auto move = [&](const V3 &v) { V3 w; for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) s += I[i][j] * (v[j] / N); w[i] = s + t[i]; } return w; };
    Case d = c; d.A.o = move(c.A.o); d.B.o = move(c.B.o); d.C = move(c.C); d.P = move(c.P);
    for (auto &z : d.oc) z.sh.o = move(z.sh.o); for (auto &z : d.gr.oc) z.sh.o = move(z.sh.o);
    x.desc("{\"original\":" + js(c) + ",\"moved\":" + js(d) + "}"); x.count(kind < 4 ? "signed_permutations" : kind < 8 ? "rational_rotations" : "translations");
    auto M = run(c), Mr = run(d); seen(x, c, M);
    auto Tc = tolerances(c), Td = tolerances(d);
    int nA = csize(c.A.L), nB = csize(c.B.L), no = (int) M.size();
    auto TA = mono_matrix(c.A.L, R), TB = mono_matrix(c.B.L, R);
    // back-transformed matrices of the moved system, with tolerances
    std::vector<std::vector<ld>> W(no, std::vector<ld>(nA * nB, 0)), Wt = W;
    for (int m = 0; m < no; m++) {
        std::vector<ld> h(nA * nB, 0), ht(nA * nB, 0);
        for (int i = 0; i < nA; i++) for (int k = 0; k < nB; k++) { ld v = Mr[m][i * nB + k], tv = Td[m].tol[i * nB + k]; for (int j = 0; j < nB; j++) if (TB[k][j] != 0) { h[i * nB + j] += v * TB[k][j]; ht[i * nB + j] += tv * fabsl(TB[k][j]); } }
        for (int k = 0; k < nA; k++) for (int i = 0; i < nA; i++) if (TA[k][i] != 0) for (int j = 0; j < nB; j++) { W[m][i * nB + j] += TA[k][i] * h[k * nB + j]; Wt[m][i * nB + j] += fabsl(TA[k][i]) * ht[k * nB + j]; }
    }
    // tensor structure of the outputs: groups of scalars, vectors (momentum, gradients), pseudovectors (spin-orbit), and both
    auto mix = [&](int off, int na, int nb, int stride_a, int stride_b, bool psa) {     // index a: (pseudo)vector of the operator (na = 1 or 3); index b: gradient direction (nb = 1 or 3)
        for (int a = 0; a < na; a++) for (int b = 0; b < nb; b++) {
            std::vector<ld> w(nA * nB, 0), tl(nA * nB, 0); int o0 = off + a * stride_a + b * stride_b;
            for (int e = 0; e < na; e++) for (int f = 0; f < nb; f++) {
                ld k = (na == 3 ? R[a][e] * (psa ? det : 1) : 1) * (nb == 3 ? R[b][f] : 1); if (k == 0) continue; int q2 = off + e * stride_a + f * stride_b;
                for (int i = 0; i < nA * nB; i++) { w[i] += k * M[q2][i]; tl[i] += fabsl(k) * Tc[q2].tol[i]; }
            }
            Mat got(nA * nB); for (int i = 0; i < nA * nB; i++) { got[i] = (double) W[o0][i]; tl[i] += Wt[o0][i] + 1e-15L * fabsl(W[o0][i]); }
            if (!cmp_tol(x, std::string(FN_NAME[fn]) + sf("[%d] of the moved system, turned back", o0), got, w, tl)) return false;
        }
        return true;
    };
    switch (fn) {
    case MOM: mix(0, 3, 1, 1, 0, false); break;
    case SO: mix(0, 3, 1, 1, 0, true); break;
    case OC: case FULL: if (mix(0, 1, 1, 0, 0, false)) mix(1, 3, 1, 1, 0, true); break;
    case GOVL: case GT1: case GT2: mix(0, 1, 3, 0, 1, false); break;
    case GSO: mix(0, 3, 3, 3, 1, true); break;
    case GOC: case GFULL: if (mix(0, 1, 3, 0, 1, false)) mix(3, 3, 3, 3, 1, true); break;
    default: mix(0, 1, 1, 0, 0, false);
    }
}
static Reg r12("C12", c12, lib_init);

// ---------------------------------------------------------------- C13 linearity
static void c13(Ctx &x)
{
    Rng g = x.rng(); int fn = ALLF[x.idx % 20];
    GenOpt o = opt_meta(g, fn); o.geo = (int) (x.idx / 20 % NGEO); o.ncmax = std::min(o.ncmax, 4); o.npmax = 4; o.budget /= 2; o.Lmax = std::min(o.Lmax, 7);
    if (fn == GOC || fn == GFULL) o.Lmax = 2;
    Case c = gen_case(g, fn, o);
    x.desc(js(c));
    auto M = run(c); seen(x, c, M);
    auto T = tolerances(c); int n = c.size(), no = (int) M.size();
    auto test = [&](const std::vector<Mat> &N, double f, const std::string &what, double k = 2) {   // N should be f * M
        for (int m = 0; m < no; m++) {
            std::vector<ld> w(n), t(n); for (int i = 0; i < n; i++) { w[i] = (ld) f * M[m][i]; t[i] = k * (is_semi(fn) || (is_nuc(fn) && fn != NPT) ? std::max(1.0, std::fabs(f)) : std::fabs(f)) * T[m].tol[i]; }   // the numerical families have an absolute part
            if (!cmp_tol(x, std::string(FN_NAME[fn]) + sf("[%d] ", m) + what, N[m], w, t)) return false;
        }
        x.count("relations"); return true;
    };
    auto sum_of = [&](const std::vector<Case> &v) { std::vector<Mat> S(no, Mat(n, 0)); for (auto &d : v) { auto N = run(d); for (int m = 0; m < no; m++) for (int i = 0; i < n; i++) S[m][i] += N[m][i]; } return S; };
    { std::vector<Case> v; for (size_t i = 0; i < c.A.c.size(); i++) { Case d = c; d.A.c = {c.A.c[i]}; d.A.a = {c.A.a[i]}; v.push_back(d); } if (v.size() > 1 && !test(sum_of(v), 1, "against the sum over the primitives of A")) return; }
    { std::vector<Case> v; for (size_t i = 0; i < c.B.c.size(); i++) { Case d = c; d.B.c = {c.B.c[i]}; d.B.a = {c.B.a[i]}; v.push_back(d); } if (v.size() > 1 && !test(sum_of(v), 1, "against the sum over the primitives of B")) return; }
    { Case d = c; double s = g.pick({2.0, -0.5, 3.0, 1e3, 1e-3, -7.25}); for (auto &q : (g.chance(0.5) ? d.A : d.B).c) q *= s; if (!test(run(d), s, sf("with the coefficients of a shell multiplied by %g", s))) return; }
    { Case d = c; Sh &s = g.chance(0.5) ? d.A : d.B; std::reverse(s.a.begin(), s.a.end()); std::reverse(s.c.begin(), s.c.end()); if (!test(run(d), 1, "with the primitives in reverse order")) return; }
    { Case d = c; Sh &s = g.chance(0.5) ? d.A : d.B; int k = g.i(0, (int) s.c.size() - 1); double e = g.uni(-1, 1) * s.c[k]; s.c[k] -= e; s.c.push_back(e); s.a.push_back(s.a[k]); if (!test(run(d), 1, "with one primitive split into two")) return; }
    { Case d = c; Sh &s = g.chance(0.5) ? d.A : d.B; s.c.insert(s.c.begin() + g.i(0, (int) s.c.size()), 0.0); s.a.insert(s.a.begin() + (s.a.size() ? g.i(0, (int) s.a.size()) : 0), s.a[0]);
      // keep the pairing: rebuild
      Sh &r = c.A.L == s.L && &s == &d.A ? c.A : c.B; s.c = r.c; s.a = r.a; int k = g.i(0, (int) r.c.size()); s.c.insert(s.c.begin() + k, 0.0); s.a.insert(s.a.begin() + k, r.a[g.i(0, (int) r.a.size() - 1)]); if (&s == &d.A || &s == &d.B) if (!test(run(d), 1, "with a primitive of coefficient zero added")) return; }
    int b = base_fn(fn);
    if (b == T1 || b == T2 || b == SO) {
        std::vector<Case> v; for (size_t i = 0; i < c.U.c.size(); i++) { Case d = c; d.U.c = {c.U.c[i]}; d.U.a = {c.U.a[i]}; d.U.n = {c.U.n[i]}; v.push_back(d); }
        if (v.size() > 1 && !test(sum_of(v), 1, "against the sum over the terms of the potential")) return;
        Case d = c; std::reverse(d.U.c.begin(), d.U.c.end()); std::reverse(d.U.a.begin(), d.U.a.end()); std::reverse(d.U.n.begin(), d.U.n.end());
        if (!test(run(d), 1, "with the terms of the potential in reverse order")) return;
        d = c; double s = g.pick({2.0, -0.5, 3.0, 1e3, 1e-2, -7.25}); for (auto &q : d.U.c) q *= s; if (!test(run(d), s, sf("with the potential multiplied by %g", s))) return;
        if (!c.U.c.empty()) {
            d = c; int k = g.i(0, (int) c.U.c.size() - 1); double e = g.uni(0.1, 0.9) * c.U.c[k]; d.U.c[k] -= e; d.U.c.push_back(e); d.U.a.push_back(c.U.a[k]); d.U.n.push_back(c.U.n[k]); if (!test(run(d), 1, "with one term of the potential split into two")) return;
            d = c; d.U.c.push_back(0); d.U.a.push_back(1); d.U.n.push_back(2); if (!test(run(d), 1, "with a zero term added to the potential")) return;
        }
    }
    if (b == OC || b == FULL) {
        Case d = c; double s = g.pick({2.0, -0.5, 3.0, -7.25}); for (auto &p : d.oc) for (auto &q : p.pot.c) q *= s;
        for (auto &q : d.gr.loc.c) q *= s; for (auto &p : d.gr.arep) for (auto &q : p.c) q *= s; for (auto &p : d.gr.esop) for (auto &q : p.c) q *= s; for (auto &p : d.gr.oc) for (auto &q : p.pot.c) q *= s;
        if (!test(run(d), s, sf("with all potentials multiplied by %g", s))) return;
        // additivity: U1 + U2 termwise
        Case e = c, f = c; auto half = [&](std::vector<Oc> &p, std::vector<Oc> &q) { for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < p[i].pot.c.size(); k++) { double u = g.uni(-1, 2); q[i].pot.c[k] *= 1 - u; p[i].pot.c[k] *= u; } };
        auto halfp = [&](Pt &p, Pt &q) { for (size_t k = 0; k < p.c.size(); k++) { double u = g.uni(-1, 2); q.c[k] *= 1 - u; p.c[k] *= u; } };
        half(e.oc, f.oc); half(e.gr.oc, f.gr.oc); halfp(e.gr.loc, f.gr.loc); for (size_t i = 0; i < e.gr.arep.size(); i++) halfp(e.gr.arep[i], f.gr.arep[i]); for (size_t i = 0; i < e.gr.esop.size(); i++) halfp(e.gr.esop[i], f.gr.esop[i]);
        if (!test(sum_of({e, f}), 1, "against the sum over two potentials", 5)) return;
    }
    if (is_nuc(fn)) { Case d = c; int k = g.i(2, 5); d.Z *= k; if (!test(run(d), k, sf("with the charge multiplied by %d", k))) return; }
}
static Reg r13("C13", c13, lib_init);

// ---------------------------------------------------------------- C14 identities between families
static void c14(Ctx &x)
{
    Rng g = x.rng(); int kind = (int) (x.idx % 8);
    auto cmp = [&](const char *what, const Mat &a, const std::vector<ld> &ta, const Mat &b, const std::vector<ld> &tb, double f = 1) {
        std::vector<ld> w(b.size()), t(b.size()); for (size_t i = 0; i < b.size(); i++) { w[i] = (ld) f * b[i]; t[i] = ta[i] + std::fabs(f) * tb[i]; }
        return cmp_tol(x, what, a, w, t);
    };
    GenOpt o; o.Lmax = 10; o.ncmax = 4; o.geo = (int) (x.idx / 8 % NGEO);
    auto two = [&](const Case &c, const Case &d, const char *what, double f = 1) {
        x.desc("{\"left\":" + js(c) + ",\"right\":" + js(d) + "}"); auto M = run(c), N = run(d); auto T = tolerances(c), S = tolerances(d); seen(x, c, M); x.count(what);
        for (size_t m = 0; m < M.size(); m++) if (!cmp(what, M[m], T[m].tol, N[m], S[m].tol, f)) return;
    };
    if (kind == 0) {       // constant local potential and overlap
        Case c = gen_case(g, T1, o); double v = g.uni(-3, 3); c.U.n = {2}; c.U.a = {0}; c.U.c = {v}; Case d = c; d.fn = OVL; two(c, d, "a constant local potential against the overlap", v);
    } else if (kind == 1) { // 1/r local potential and point nucleus
        Case c = gen_case(g, NPT, o), d = c; d.fn = T1; d.U.n = {1}; d.U.a = {0}; d.U.c = {-(double) c.Z}; two(c, d, "point nucleus against the local potential -Z/r");
    } else if (kind == 2) { // numerical and analytical point nucleus
        o.budget = 300; o.lmax = 0; Case c = gen_case(g, NNUM, o), d = c; d.fn = NPT; two(c, d, "numerical against analytical point nucleus");
    } else if (kind == 3) { // completeness: with B on the potential centre, only l = LB, LB-2, ... contribute
        o.budget = 4000; o.lmax = 8; o.resolvable = true; o.LB = g.i(0, 6); Case c = gen_case(g, T1, o); bool onB = g.chance(0.5); (onB ? c.B : c.A).o = c.C; int L = onB ? c.B.L : c.A.L;
        for (auto &a : c.A.a) a = std::min(a, resolvable_exponent(nrm(c.A.o - c.C))); for (auto &a : c.B.a) a = std::min(a, resolvable_exponent(nrm(c.B.o - c.C)));
        if (L > 7) { (onB ? c.B : c.A).L = L = g.i(0, 7); }
        if (c.A.L + c.B.L > 12) { (onB ? c.A : c.B).L = g.i(0, 4); }
        x.desc(js(c)); auto M = run(c); seen(x, c, M); auto T = tolerances(c); Mat S(c.size(), 0); std::vector<ld> ts(c.size(), 0);
        for (int l = 0; l <= L; l++) { Case d = c; d.fn = T2; d.U.L = l; d.U.J = 2 * l + 1; auto N = run(d); auto R = tolerances(d); for (int i = 0; i < c.size(); i++) { S[i] += N[0][i]; ts[i] += R[0].tol[i]; } }
        cmp("local potential against the sum of all projections", M[0], T[0].tol, S, ts); x.count("completeness");
    } else if (kind == 4) { // momentum and overlap gradient: -<A|dB> = +(d/dB acting on the centre)
        o.Lmax = 9; Case c = gen_case(g, MOM, o); if (c.A.o == c.B.o) c.B.o[0] += 0.5; Case d = c; d.fn = GOVL; d.P = c.B.o; two(c, d, "momentum against the overlap gradient at B");
    } else if (kind == 5) { // kinetic energy by repeated differentiation: -1/2 sum_k d^2/dB_k^2 S, as momentum between gradients of A built from shells
        // -1/2 lap B = combination of shells L+2, L, L-2 of the same primitive exponent; use single primitives
        Case c = gen_case(g, KIN, o); c.A.L = std::min(c.A.L, 10); c.B.L = std::min(c.B.L, 8); double b = c.B.a[0]; c.B.a = {b}; c.B.c = {1};
        x.desc(js(c)); auto M = run(c); seen(x, c, M); auto T = tolerances(c); int L = c.B.L, nA = csize(c.A.L), nB = csize(L);
        std::map<int, std::map<std::array<int, 3>, int>> pos; std::map<int, std::vector<Mat>> S; std::map<int, std::vector<RefT>> St;
        for (int q : {L - 2, L, L + 2}) if (q >= 0) { Case d = c; d.fn = OVL; d.B.L = q; S[q] = run(d); St[q] = tolerances(d); auto co = cart_order(q); for (size_t i = 0; i < co.size(); i++) pos[q][co[i]] = (int) i; }
        auto co = cart_order(L); Mat W(nA * nB, 0); std::vector<ld> wt(nA * nB, 0);
        for (int j = 0; j < nB; j++) for (int k = 0; k < 3; k++) {
            auto e = co[j]; int n0 = e[k];
            auto term = [&](int q, int dn, double f) { auto u = e; u[k] += dn; if (u[k] < 0 || f == 0) return; int jj = pos[q][u], nq = csize(q); f *= prim_norm(L, b) / prim_norm(q, b); for (int i = 0; i < nA; i++) { W[i * nB + j] += f * S[q][0][i * nq + jj]; wt[i * nB + j] += std::fabs(f) * St[q][0].tol[i * nq + jj]; } };
            term(L + 2, 2, -0.5 * 4 * b * b); term(L, 0, -0.5 * -2 * b * (2 * n0 + 1)); if (n0 >= 2) term(L - 2, -2, -0.5 * n0 * (n0 - 1));
        }
        cmp("kinetic energy against overlaps with the differentiated function", M[0], T[0].tol, W, wt); x.count("kinetic_from_overlaps");
    } else if (kind == 6) { // one outercore function: the operator is made of type-2-like and non-local terms; with a potential equal for... use a vanishing shell coefficient
        o.budget = 3000; o.Lmax = 5; o.lmax = 4; Case c = gen_case(g, OC, o); for (auto &q : c.oc) for (auto &v : q.pot.c) v = 0;
        x.desc(js(c)); auto M = run(c); x.count("zero_outercore"); if (!(maxabs(M) == 0) && !(maxabs(M) < 1e-12)) x.fail(sf("outercore operator with zero potentials is not zero: %.3g", maxabs(M)));
        // gaussian nucleus of tiny radius = point nucleus
        GenOpt p; p.budget = 300; p.ncmax = 3; p.lmax = 0; p.geo = o.geo; Case d = gen_case(g, NGAUSS, p), e = d; d.prm = {1e-9}; e.fn = NPT; auto A = run(d), B = run(e); auto Ta = tolerances(e); e.fn = NNUM; auto Tb = tolerances(e); e.fn = NPT;
        x.desc(js(d)); seen(x, d, A);
        std::vector<ld> ex(d.size(), 0); double as = 0, bs = 0; for (double a : d.A.a) as += a; for (double a : d.B.a) bs += a;
        for (int i = 0; i < d.size(); i++) ex[i] = Tb[0].tol[i] * 3;
        if (!cmp("gaussian nucleus of vanishing radius against a point nucleus", A[0], ex, B[0], Ta[0].tol)) return;
    } else {               // spin-orbit: parity; SO of s functions about their own centre vanishes; type2 with l larger than both L on the centre vanishes
        o.budget = 4000; o.lmax = 10; o.geo = GEO_ALL1; Case c = gen_case(g, g.chance(0.5) ? T2 : SO, o);
        int l = c.U.L; bool zero = l > c.A.L || l > c.B.L || (l + c.A.L) % 2 || (l + c.B.L) % 2;
        x.desc(js(c)); auto M = run(c); x.count(zero ? "selection_rule_zero" : "selection_rule_nonzero"); if (!zero) seen(x, c, M); else x.nontrivial(x.cur);
        auto T = tolerances(c);
        if (zero) for (size_t m = 0; m < M.size(); m++) { std::vector<ld> w(c.size(), 0); if (!cmp_tol(x, "one-centre integrals forbidden by parity or degree", M[m], w, T[m].tol)) return; }
        else { // same projector twice: sum over l of one-centre type2 = overlap-like type1
            Case d = c; d.fn = T1; auto N = run(d); auto Tn = tolerances(d); Mat S(c.size(), 0); std::vector<ld> ts(c.size(), 0);
            for (int q = 0; q <= std::min(c.A.L, c.B.L); q++) { Case e = c; e.fn = T2; e.U.L = q; e.U.J = 2 * q + 1; auto Q = run(e); auto R = tolerances(e); for (int i = 0; i < c.size(); i++) { S[i] += Q[0][i]; ts[i] += R[0].tol[i]; } }
            cmp("one-centre local potential against the sum of all projections", N[0], Tn[0].tol, S, ts);
        }
    }
}
static Reg r14("C14", c14, lib_init);

// ---------------------------------------------------------------- C15 definiteness
static double min_eig(std::vector<double> A, int n)     // cyclic Jacobi
{
    for (int sweep = 0; sweep < 60; sweep++) {
        double off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += A[i * n + j] * A[i * n + j];
        if (off < 1e-30 * n) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            double a = A[p * n + q]; if (std::fabs(a) < 1e-18) continue;
            double th = (A[q * n + q] - A[p * n + p]) / (2 * a), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < n; k++) { double u = A[k * n + p], v = A[k * n + q]; A[k * n + p] = c * u - s * v; A[k * n + q] = s * u + c * v; }
            for (int k = 0; k < n; k++) { double u = A[p * n + k], v = A[q * n + k]; A[p * n + k] = c * u - s * v; A[q * n + k] = s * u + c * v; }
        }
    }
    double m = 1e300; for (int i = 0; i < n; i++) m = std::min(m, A[i * n + i]); return m;
}
static void c15(Ctx &x)
{
    Rng g = x.rng(); static const int F[] = {OVL, KIN, T1, T2, NPT, NGAUSS, T2, NFERMI}; int fn = F[x.idx % 8];
    GenOpt o; o.budget = 800; o.Lmax = fn == T2 ? 4 : 6; o.lmax = 5; o.ncmax = 3; o.npmax = 3; if (is_nuc(fn) && fn != NPT) { o.Lmax = 3; o.budget = 100; }
    Case c = gen_case(g, fn, o);
    for (auto &v : c.U.c) v = std::fabs(v); c.Z = std::abs(c.Z);
    double sgn = is_nuc(fn) ? -1 : 1;
    std::vector<Sh> sh{c.A, c.B}; int nsh = g.i(2, 4), dim = csize(c.A.L) + csize(c.B.L);
    for (int k = 2; k < nsh; k++) { GenOpt p = o; p.Lmax = 3; Case q = gen_case(g, fn, p); Sh s = g.chance(0.5) ? q.A : q.B; s.L = std::min(s.L, 3); s.o = g.chance(0.5) ? (g.chance(0.5) ? c.A.o : c.B.o) : c.C + g.uni(0, 3) * rand_dir(g); if (is_semi(fn) || is_nuc(fn)) for (auto &a : s.a) a = std::min(a, resolvable_exponent(nrm(s.o - c.C))); if (dim + csize(s.L) > 70) break; dim += csize(s.L); sh.push_back(s); }
    std::string ds = "{\"operator\":" + js(c) + ",\"shells\":["; for (size_t i = 0; i < sh.size(); i++) ds += (i ? "," : "") + js(sh[i]); x.desc(ds + "]}");
    std::vector<double> M(dim * dim, 0), T(dim * dim, 0); std::vector<int> off{0}; for (auto &s : sh) off.push_back(off.back() + csize(s.L));
    for (size_t a = 0; a < sh.size(); a++) for (size_t b = 0; b < sh.size(); b++) {
        Case d = c; d.A = sh[a]; d.B = sh[b]; auto N = run(d); auto R = tolerances(d); int nb = csize(d.B.L);
        for (int i = 0; i < csize(d.A.L); i++) for (int j = 0; j < nb; j++) { M[(off[a] + i) * dim + off[b] + j] = sgn * N[0][i * nb + j]; T[(off[a] + i) * dim + off[b] + j] = (double) R[0].tol[i * nb + j]; }
    }
    x.count(std::string("fn_") + FN_NAME[fn]); x.count("matrix_dimension_total", dim);
    double mxd = 0; for (int i = 0; i < dim; i++) mxd = std::max(mxd, M[i * dim + i]);
    for (int i = 0; i < dim; i++) if (!(M[i * dim + i] >= -T[i * dim + i])) { x.fail(sf("expectation value of a non-negative operator (%s) is %.6g for function %d, tolerance %.3g", FN_NAME[fn], M[i * dim + i], i, T[i * dim + i])); return; }
    // normalise by the diagonal (functions the operator does not reach get weight zero)
    std::vector<double> w(dim); for (int i = 0; i < dim; i++) { double d = M[i * dim + i]; w[i] = d > 1e-9 * mxd && d > 30 * T[i * dim + i] ? 1 / std::sqrt(d) : 0; }
    int live = 0; double tf = 0; std::vector<double> N(dim * dim);
    for (int i = 0; i < dim; i++) { if (w[i]) live++; for (int j = 0; j < dim; j++) { N[i * dim + j] = 0.5 * (M[i * dim + j] + M[j * dim + i]) * w[i] * w[j]; double t = T[i * dim + j] * w[i] * w[j]; tf += t * t; if (std::fabs(N[i * dim + j]) > 1 + 3 * t + 1.5 * (T[i * dim + i] * w[i] * w[i] + T[j * dim + j] * w[j] * w[j]) + 1e-12) { x.fail(sf("Cauchy-Schwarz inequality broken for %s: normalised element (%d,%d) is %.15g", FN_NAME[fn], i, j, N[i * dim + j])); return; } } if (!w[i]) N[i * dim + i] = 1; }
    double e = min_eig(N, dim), tol = std::sqrt(tf) + 1e-12 * dim;
    if (live > 1) x.nontrivial(x.cur);
    x.maxi("most_negative_over_tolerance", e < 0 ? -e / tol : 0); x.count("eigenvalue_problems");
    if (!(e >= -tol)) x.fail(sf("normalised matrix of %s has eigenvalue %.6g (tolerance %.3g)", FN_NAME[fn], e, tol));
}
static Reg r15("C15", c15, lib_init);

// ---------------------------------------------------------------- C16 nearly coincident centres and other switches
static void c16(Ctx &x)
{
    Rng g = x.rng(); static const int F[] = {T2, SO, OC, T1, NNUM, NFERMI, OVL, KIN, MOM, NPT, FULL, T2, SO, GOVL, GT1, GT2, GSO, GOC, GFULL, GOVL}; const int NF = 20; int fn = F[x.idx % NF];
    GenOpt o = opt_meta(g, fn); o.geo = GEO_GEN; o.Lmax = is_semi(fn) || (is_nuc(fn) && fn != NPT) ? 5 : 8; o.ncmax = 3; o.npmax = 2; if (fn == OC || fn == FULL) o.Lmax = 3, o.lmax = 3;
    if (is_grad(fn) && fn != GOVL) { o.Lmax = 2; o.lmax = 2; o.ncmax = 2; }
    Case c = gen_case(g, fn, o);
    long k = x.idx / NF; int which = (int) (k % 6); double e = std::pow(10.0, -(double) (k / 6 % (is_grad(fn) ? 10 : 17)) - g.u());      // gradients: centres closer than 1e-12 move together
     V3 u = g.chance(0.4) ? V3{{1, 0, 0}} : rand_dir(g);
    if (g.chance(0.4)) { int q = g.i(0, 2); u = {{0, 0, 0}}; u[q] = g.sgn(); }
    switch (which) {
    case 0: c.A.o = c.C + e * u; break;
    case 1: c.B.o = c.C + e * u; break;
    case 2: c.B.o = c.A.o + e * u; break;
    case 3: c.A.o = c.C + e * u; c.B.o = c.C + e * rand_dir(g); break;
    case 4: c.A.o = c.C + e * u; c.B.o = c.C; break;
    case 5: { int q = g.i(0, 2); c.A.o[q] = c.C[q] + e; if (g.chance(0.5)) c.B.o[q] = c.A.o[q] - e * g.uni(0, 2); break; }     // nearly aligned
    }
    if (is_semi(fn) || is_nuc(fn)) { for (auto &a : c.A.a) a = std::min(a, resolvable_exponent(nrm(c.A.o - c.C))); for (auto &a : c.B.a) a = std::min(a, resolvable_exponent(nrm(c.B.o - c.C))); }
    x.desc(js(c)); auto M = run(c); auto R = reference(c); seen(x, c, M);
    if (which >= 3 && which < 5 && e < 2e-12) {   // centres closer than 1e-12 count as coincident: allow the change from exact coincidence
        Case d = c; d.A.o = d.B.o = d.C; auto R0 = reference(d);
        for (size_t m = 0; m < R.size(); m++) { ld v = 0; for (size_t i = 0; i < R[m].v.size(); i++) v = std::max(v, fabsl(R[m].v[i] - R0[m].v[i])); for (auto &t : R[m].tol) t += 100 * v; }
    }
    x.count(sf("distance_1e-%02d", (int) std::lround(std::floor(-std::log10(e)))));
    cmp_ref(x, std::string(FN_NAME[fn]) + sf(" with centres %.3g apart (kind %d)", e, which), M, R);
}
static Reg r16("C16", c16, lib_init);
