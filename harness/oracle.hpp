// Reference values by methods that share nothing with the library:
//  * overlap/kinetic/momentum: one-dimensional moments in binary128
//  * local r^(n-2) exp(-zeta r^2): Laplace transform of r^(n-2), three-centre Gaussian product, Gauss-Legendre over the transform variable
//  * projected (semilocal, spin-orbit, outercore) operators: the functions are sampled in space and projected by quadrature on spheres
//    about the potential centre, then integrated over the radius on adaptive panels
//  * any local radial function (finite nuclei): quadrature on spheres about the centre
// Next to each value comes a "scale", the size of the terms an evaluation in double precision must sum; errors are judged against it.
#pragma once
#include "common.hpp"
#include <complex>
#include <map>

typedef long double ld;
typedef __float128 q128;
inline ld fabsq_(q128 x) { return (ld) (x < 0 ? -x : x); }

struct Ref { std::vector<ld> v, s; };   // values and scales

// ---------------------------------------------------------------- Gauss-Legendre nodes on [0,1]
struct GL { std::vector<ld> x, w; };
inline const GL &gl(int n)
{
    static std::map<int, GL> cache;
    auto it = cache.find(n);
    if (it != cache.end()) return it->second;
    GL g; g.x.resize(n); g.w.resize(n);
    for (int i = 0; i < (n + 1) / 2; i++) {
        ld z = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)), pp = 0;
        for (int it2 = 0; it2 < 100; it2++) {
            ld p1 = 1, p2 = 0;
            for (int j = 0; j < n; j++) { ld p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
            pp = n * (z * p1 - p2) / (z * z - 1);
            ld z1 = z; z = z1 - p1 / pp;
            if (fabsl(z - z1) < 1e-20L) break;
        }
        g.x[i] = 0.5L * (1 - z); g.x[n - 1 - i] = 0.5L * (1 + z);
        g.w[i] = g.w[n - 1 - i] = 1 / ((1 - z * z) * pp * pp);
    }
    return cache[n] = g;
}

// ---------------------------------------------------------------- component -> derivative expansion
// A "slot" of a shell is its value (d=0) or its derivative with respect to its own centre along x,y,z (d=1,2,3).
// one-dimensional tables: f[i][j] for value; derivative along that axis is 2a f[i+1] - i f[i-1].

// ================================================================ 1. overlap, kinetic, momentum
// op: 0 overlap, 1 kinetic, 2,3,4 momentum x,y,z ( -<A|d/dx B> ); dA,dB: slots (0 value, 1..3 centre derivative)
struct T1d { int na, nb; std::vector<q128> v, s; q128 &V(int i, int j) { return v[i * nb + j]; } q128 &S(int i, int j) { return s[i * nb + j]; } };

extern "C" q128 expq(q128);
extern "C" q128 sqrtq(q128);

inline T1d ovl1d(int la, int lb, q128 a, q128 b, q128 A, q128 B)
{
    T1d t; t.na = la + 1; t.nb = lb + 1; t.v.resize(t.na * t.nb); t.s.resize(t.na * t.nb);
    q128 p = a + b, P = (a * A + b * B) / p, PA = P - A, PB = P - B, h = 1 / (2 * p), sh = sqrtq(h);
    auto ab = [](q128 x) { return x < 0 ? -x : x; };
    q128 k = expq(-a * b / p * (A - B) * (A - B)) * sqrtq((q128) M_PIl / p);
    sh += 1e-4 * (ab(A) + ab(B));                                        // rounding of the coordinates of P relative to the constant of the tolerance
    t.V(0, 0) = k; t.S(0, 0) = k * (1 + a * b / p * (A - B) * (A - B) * 1e-2);
    for (int i = 0; i <= la; i++)
        for (int j = 0; j <= lb; j++) {
            if (i == 0 && j == 0) continue;
            q128 v, s;
            if (i > 0) {
                v = PA * t.V(i - 1, j); s = (ab(PA) + sh) * t.S(i - 1, j);
                if (i > 1) { v += h * (i - 1) * t.V(i - 2, j); s += h * (i - 1) * t.S(i - 2, j); }
                if (j > 0) { v += h * j * t.V(i - 1, j - 1); s += h * j * t.S(i - 1, j - 1); }
            } else {
                v = PB * t.V(i, j - 1); s = (ab(PB) + sh) * t.S(i, j - 1);
                if (j > 1) { v += h * (j - 1) * t.V(i, j - 2); s += h * (j - 1) * t.S(i, j - 2); }
            }
            t.V(i, j) = v; t.S(i, j) = s;
        }
    return t;
}

inline Ref ref_okm(const Sh &A, const Sh &B, int op, int dA = 0, int dB = 0)
{
    int nA = csize(A.L), nB = csize(B.L);
    auto ca = cart_order(A.L), cb = cart_order(B.L);
    std::vector<q128> v(nA * nB, 0), s(nA * nB, 0);
    for (size_t ip = 0; ip < A.c.size(); ip++)
        for (size_t jp = 0; jp < B.c.size(); jp++) {
            q128 a = A.a[ip], b = B.a[jp];
            auto pn = [](int L, q128 al) { q128 x = sqrtq(2 * al / (q128) M_PIl); q128 r = x * sqrtq(x); q128 y = sqrtq(4 * al); for (int i = 0; i < L; i++) r *= y; return r; };
            q128 f = (q128) A.c[ip] * B.c[jp] * pn(A.L, a) * pn(B.L, b);
            q128 af = f < 0 ? -f : f;
            T1d t[3];
            for (int d = 0; d < 3; d++) t[d] = ovl1d(A.L + 3, B.L + 3, a, b, A.o[d], B.o[d]);
            // axis functions: bra derivative flag, ket derivative flag, ket operator order
            auto ax = [&](int d, int i, int j, bool da, bool db, int opd, q128 &val, q128 &sc, bool bra = false) {
                // expand bra
                struct Tm { int k; q128 c; };
                std::vector<Tm> tb, tk;
                if (!da) tb = {{i, 1}}; else { tb = {{i + 1, 2 * a}}; if (i > 0) tb.push_back({i - 1, (q128) -i}); }
                if (!db) tk = {{j, 1}}; else { tk = {{j + 1, 2 * b}}; if (j > 0) tk.push_back({j - 1, (q128) -j}); }
                for (int o = 0; o < opd; o++) {   // d/dx of x^k e^{-b x^2}, on the ket or (by parts) on the bra
                    std::vector<Tm> n, &tt = bra ? tb : tk; q128 e = bra ? a : b;
                    for (auto &x : tt) { n.push_back({x.k + 1, -2 * e * x.c}); if (x.k > 0) n.push_back({x.k - 1, x.c * x.k}); }
                    tt = n;
                }
                val = 0; sc = 0;
                for (auto &x : tb) for (auto &y : tk) {
                    q128 c = x.c * y.c, ac = c < 0 ? -c : c;
                    val += c * t[d].V(x.k, y.k); sc += ac * t[d].S(x.k, y.k);
                }
            };
            for (int i = 0; i < nA; i++)
                for (int j = 0; j < nB; j++) {
                    int nterm = op == 1 ? 3 : 1;
                    for (int term = 0; term < nterm; term++) {
                        q128 pv = f, ps = af;
                        for (int d = 0; d < 3; d++) {
                            int opd = op == 0 ? 0 : op == 1 ? (term == d ? 2 : 0) : (op - 2 == d ? 1 : 0);
                            q128 x, y; ax(d, ca[i][d], cb[j][d], dA == d + 1, dB == d + 1, opd, x, y);
                            pv *= x; ps *= y;
                        }
                        if (op >= 1) {      // the operator may as well be applied to the bra: size of the terms of that route
                            q128 pb = af;
                            for (int d = 0; d < 3; d++) { int opd = op == 1 ? (term == d ? 2 : 0) : (op - 2 == d ? 1 : 0); q128 x, y; ax(d, ca[i][d], cb[j][d], dA == d + 1, dB == d + 1, opd, x, y, true); pb *= y; }
                            ps += pb;
                        }
                        if (op == 1) { pv *= -0.5; ps *= 0.5; }
                        if (op >= 2) pv = -pv;
                        v[i * nB + j] += pv; s[i * nB + j] += ps;
                    }
                }
        }
    Ref r; r.v.resize(nA * nB); r.s.resize(nA * nB);
    for (int i = 0; i < nA * nB; i++) { r.v[i] = (ld) v[i]; r.s[i] = (ld) s[i]; }
    return r;
}

// ================================================================ 2. local r^(n-2) exp(-zeta r^2)
inline void ref_local_prim(const Sh &A, int ip, const Sh &B, int jp, const V3 &C, int n, ld z0, ld coef, int dA, int dB, Ref &out)
{
    int nA = csize(A.L), nB = csize(B.L), la = A.L + 1, lb = B.L + 1;
    auto ca = cart_order(A.L), cb = cart_order(B.L);
    ld a = A.a[ip], b = B.a[jp];
    ld p0 = a + b + z0;
    ld f = coef * A.c[ip] * B.c[jp] * powl(2 * a / M_PIl, 0.75L) * powl(4 * a, 0.5L * A.L) * powl(2 * b / M_PIl, 0.75L) * powl(4 * b, 0.5L * B.L);
    ld AB2 = 0, AC2 = 0, BC2 = 0, R2 = 0;
    for (int d = 0; d < 3; d++) {
        ld x = (ld) A.o[d] - B.o[d], y = (ld) A.o[d] - C[d], w = (ld) B.o[d] - C[d];
        AB2 += x * x; AC2 += y * y; BC2 += w * w;
        ld P = (a * ((ld) A.o[d] - C[d]) + b * ((ld) B.o[d] - C[d])) / p0;
        R2 += P * P;
    }
    // nodes in phi, s = p0 tan^2(phi)
    std::vector<ld> sv, wv;
    if (n == 2) { sv = {0}; wv = {1}; }
    else {
        ld T = p0 * R2;
        ld tmax = T > 200 ? sqrtl(200 / T) : 1.0L;
        ld pmax = asinl(tmax);
        int np = T < 5 ? 1 : 4;
        const GL &g = gl(40);
        for (int k = 0; k < np; k++) {
            ld lo = pmax * k / np, hi = pmax * (k + 1) / np;
            for (int i = 0; i < 40; i++) {
                ld ph = lo + (hi - lo) * g.x[i], t = sinl(ph), c = cosl(ph);
                sv.push_back(p0 * t * t / (c * c));
                // n=1: 2/sqrt(pi) du, u = sqrt(p0) tan(ph): du = sqrt(p0)/c^2 dph ; n=0: ds = 2 p0 t / c^3 dph
                ld jac = n == 1 ? 2 / sqrtl(M_PIl) * sqrtl(p0) / (c * c) : 2 * p0 * t / (c * c * c);
                wv.push_back((hi - lo) * g.w[i] * jac);
            }
        }
    }
    std::vector<ld> J[3], S[3];
    int w = lb + 1;
    for (int d = 0; d < 3; d++) { J[d].resize((la + 1) * w); S[d].resize((la + 1) * w); }
    for (size_t is = 0; is < sv.size(); is++) {
        ld z = z0 + sv[is], q = a + b + z, h = 1 / (2 * q);
        ld pre = expl(-(a * b * AB2 + a * z * AC2 + b * z * BC2) / q) * powl(M_PIl / q, 1.5L) * wv[is] * f;
        if (pre == 0) continue;
        for (int d = 0; d < 3; d++) {
            // centre relative to A and to B
            ld XA = (b * ((ld) B.o[d] - A.o[d]) + z * ((ld) C[d] - A.o[d])) / q;
            ld XB = (a * ((ld) A.o[d] - B.o[d]) + z * ((ld) C[d] - B.o[d])) / q;
            ld sA = (b * fabsl((ld) B.o[d] - A.o[d]) + z * fabsl((ld) C[d] - A.o[d])) / q + sqrtl(h);
            ld sB = (a * fabsl((ld) A.o[d] - B.o[d]) + z * fabsl((ld) C[d] - B.o[d])) / q + sqrtl(h);
            for (int i = 0; i <= la; i++)
                for (int j = 0; j <= lb; j++) {
                    ld v, s;
                    if (i == 0 && j == 0) { v = s = 1; }
                    else if (i > 0) {
                        v = XA * J[d][(i - 1) * w + j]; s = sA * S[d][(i - 1) * w + j];
                        if (i > 1) { v += h * (i - 1) * J[d][(i - 2) * w + j]; s += h * (i - 1) * S[d][(i - 2) * w + j]; }
                        if (j > 0) { v += h * j * J[d][(i - 1) * w + j - 1]; s += h * j * S[d][(i - 1) * w + j - 1]; }
                    } else {
                        v = XB * J[d][j - 1]; s = sB * S[d][j - 1];
                        if (j > 1) { v += h * (j - 1) * J[d][j - 2]; s += h * (j - 1) * S[d][j - 2]; }
                    }
                    J[d][i * w + j] = v; S[d][i * w + j] = s;
                }
        }
        auto ax = [&](int d, int i, int j, ld &v, ld &s) {
            bool da = dA == d + 1, db = dB == d + 1;
            if (!da && !db) { v = J[d][i * w + j]; s = S[d][i * w + j]; return; }
            int ki[2], kj[2], mi = 0, mj = 0; ld ci[2], cj[2];
            if (!da) { ki[mi] = i; ci[mi++] = 1; } else { ki[mi] = i + 1; ci[mi++] = 2 * a; if (i > 0) { ki[mi] = i - 1; ci[mi++] = -i; } }
            if (!db) { kj[mj] = j; cj[mj++] = 1; } else { kj[mj] = j + 1; cj[mj++] = 2 * b; if (j > 0) { kj[mj] = j - 1; cj[mj++] = -j; } }
            v = s = 0;
            for (int x = 0; x < mi; x++) for (int y = 0; y < mj; y++) { v += ci[x] * cj[y] * J[d][ki[x] * w + kj[y]]; s += fabsl(ci[x] * cj[y]) * S[d][ki[x] * w + kj[y]]; }
        };
        for (int i = 0; i < nA; i++)
            for (int j = 0; j < nB; j++) {
                ld v = pre, s = fabsl(pre);
                for (int d = 0; d < 3; d++) { ld x, y; ax(d, ca[i][d], cb[j][d], x, y); v *= x; s *= y; }
                out.v[i * nB + j] += v; out.s[i * nB + j] += s;
            }
    }
}

inline Ref ref_local(const Sh &A, const Sh &B, const V3 &C, const Pt &U, int dA = 0, int dB = 0)
{
    Ref r; int n = csize(A.L) * csize(B.L); r.v.assign(n, 0); r.s.assign(n, 0);
    for (size_t i = 0; i < A.c.size(); i++) for (size_t j = 0; j < B.c.size(); j++) for (size_t k = 0; k < U.c.size(); k++)
        ref_local_prim(A, (int) i, B, (int) j, C, U.n[k], U.a[k], U.c[k], dA, dB, r);
    return r;
}

// ================================================================ 3. projections by quadrature on spheres
// real solid harmonics S_lm(x,y,z) for one l, orthonormal on the unit sphere; index m = -l..l -> 0..2l. T may be complex.
template<class T> inline void solid_harm(int l, const T &x, const T &y, const T &z, T *out)
{
    T r2 = x * x + y * y + z * z;
    std::vector<T> cm(l + 1), sm(l + 1);
    cm[0] = T(1); sm[0] = T(0);
    for (int m = 1; m <= l; m++) { cm[m] = cm[m - 1] * x - sm[m - 1] * y; sm[m] = sm[m - 1] * x + cm[m - 1] * y; }
    for (int m = 0; m <= l; m++) {
        // Legendre part, normalised recursion: q_m^m = sqrt((2m+1)/(4pi) * prod (2k-1)/(2k) ...)
        ld qmm = 1 / (4 * M_PIl);
        for (int k = 1; k <= m; k++) qmm *= (2 * k + 1.0L) / (2 * k);
        T p0 = T(0), p1 = T((double) 0);
        p1 = T(1) * T((typename std::conditional<std::is_same<T, double>::value, double, ld>::type) sqrtl(qmm));
        for (int k = m + 1; k <= l; k++) {
            ld al = sqrtl((4.0L * k * k - 1) / ((ld) k * k - (ld) m * m));
            ld be = k - 1 > m ? sqrtl(((ld) (k - 1) * (k - 1) - (ld) m * m) / (4.0L * (k - 1) * (k - 1) - 1)) : 0;
            typedef typename std::conditional<std::is_same<T, double>::value, double, ld>::type F;
            T pn = T((F) al) * (z * p1 - T((F) be) * r2 * p0);
            p0 = p1; p1 = pn;
        }
        typedef typename std::conditional<std::is_same<T, double>::value, double, ld>::type F;
        if (m == 0) out[l] = p1;
        else { out[l + m] = T((F) sqrtl(2)) * cm[m] * p1; out[l - m] = T((F) sqrtl(2)) * sm[m] * p1; }
    }
}

// matrix of -(r x grad)_eta (imaginary part of the angular momentum operator) between real harmonics of degree l, by complex-step rotation and quadrature
inline const std::array<std::vector<ld>, 3> &rot_matrices(int l)
{
    static std::map<int, std::array<std::vector<ld>, 3>> cache;
    auto it = cache.find(l);
    if (it != cache.end()) return it->second;
    int d = 2 * l + 1;
    std::array<std::vector<ld>, 3> M; for (auto &m : M) m.assign(d * d, 0);
    int nt = l + 2, np = 2 * l + 3;
    const GL &g = gl(nt);
    std::vector<ld> S(d); std::vector<std::complex<ld>> SC(d);
    for (int i = 0; i < nt; i++) for (int k = 0; k < np; k++) {
        ld c = 2 * g.x[i] - 1, s = sqrtl(1 - c * c), ph = 2 * M_PIl * k / np, w = 2 * g.w[i] * 2 * M_PIl / np;
        ld v[3] = {s * cosl(ph), s * sinl(ph), c};
        solid_harm<ld>(l, v[0], v[1], v[2], S.data());
        for (int e = 0; e < 3; e++) {
            // (r x grad)_e f (v) = d/dt f(v + t e_e x v)
            int e1 = (e + 1) % 3, e2 = (e + 2) % 3;
            std::complex<ld> q[3]; const ld h = 1e-30L;
            ld dv[3] = {0, 0, 0}; dv[e1] = -v[e2]; dv[e2] = v[e1];
            for (int a = 0; a < 3; a++) q[a] = std::complex<ld>(v[a], h * dv[a]);
            solid_harm<std::complex<ld>>(l, q[0], q[1], q[2], SC.data());
            for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) M[e][a * d + b] -= w * S[a] * SC[b].imag() / h;
        }
    }
    return cache[l] = M;
}

// ---- radial grid adapted to a set of "radial bumps": centre distances and exponents
struct RGrid { std::vector<double> r, w; };

struct GridOpt { int rn = 14; double ang = 1.0; bool scale_only = false; };   // nodes per radial panel; angular refinement factor; skip the projections, give scales only

inline RGrid make_rgrid(const std::vector<std::pair<double, double>> &bumps /* (distance, max exponent) */, double rmax,
                        const std::function<double(double)> &bound, const GridOpt &o, const std::vector<double> &extra = {})
{
    double amax = 0; for (auto &b : bumps) amax = std::max(amax, b.second);
    std::vector<double> br{0, rmax};
    for (double x : extra) if (x > 0 && x < rmax) br.push_back(x);
    for (auto &b : bumps) {
        if (b.first > 0 && b.first < rmax) br.push_back(b.first);
        double h = 0.7 / std::sqrt(b.second);
        for (double t = h; t < rmax; t *= (t < 4 * h ? 2.0 : 1.7)) {
            if (b.first + t < rmax) br.push_back(b.first + t);
            if (b.first - t > 0) br.push_back(b.first - t);
        }
    }
    std::sort(br.begin(), br.end());
    std::vector<double> b2;
    for (double x : br) if (b2.empty() || x - b2.back() > 0.15 / std::sqrt(amax) || x == rmax) b2.push_back(x); else if (std::find(extra.begin(), extra.end(), x) != extra.end()) b2.push_back(x);
    std::sort(b2.begin(), b2.end());
    // pruning by bound
    std::vector<double> pm(b2.size() - 1, 0); double gmax = 0;
    for (size_t k = 0; k + 1 < b2.size(); k++) {
        for (int i = 0; i <= 8; i++) pm[k] = std::max(pm[k], bound(b2[k] + (b2[k + 1] - b2[k]) * i / 8.0) * (b2[k + 1] - b2[k]));
        gmax = std::max(gmax, pm[k]);
    }
    RGrid g; const GL &q = gl(o.rn);
    for (size_t k = 0; k + 1 < b2.size(); k++) {
        if (pm[k] < 1e-20 * gmax) continue;
        for (int i = 0; i < o.rn; i++) { g.r.push_back((double) (b2[k] + (b2[k + 1] - b2[k]) * q.x[i])); g.w.push_back((double) ((b2[k + 1] - b2[k]) * q.w[i])); }
    }
    return g;
}

// projection tables of a shell about C
struct Proj {
    int l, nc, nslot;                    // nslot = 1 (values) or 4 (values and centre derivatives)
    std::vector<double> T;               // [ir][m][slot][comp]
    const double *at(int ir, int m, int slot) const { return &T[(((size_t) ir * (2 * l + 1) + m) * nslot + slot) * nc]; }
};

inline std::vector<Proj> project(const Sh &A, const V3 &C, const std::vector<int> &ls, const RGrid &rg, int nslot, const GridOpt &o)
{
    int L = A.L, nc = csize(L), lmax = 0;
    for (int l : ls) lmax = std::max(lmax, l);
    V3 D = A.o - C; double d = nrm(D);
    double amax = 0, amin = 1e300; for (double a : A.a) { amax = std::max(amax, a); amin = std::min(amin, a); }
    // frame with axis along D
    V3 ez = d > 0 ? (1 / d) * D : V3{{0, 0, 1}}, t = std::fabs(ez[0]) < 0.6 ? V3{{1, 0, 0}} : V3{{0, 1, 0}};
    V3 ex = t - dot(t, ez) * ez; ex = (1 / nrm(ex)) * ex;
    V3 ey{{ez[1] * ex[2] - ez[2] * ex[1], ez[2] * ex[0] - ez[0] * ex[2], ez[0] * ex[1] - ez[1] * ex[0]}};
    int np = lmax + L + 3;
    size_t nr = rg.r.size();
    std::vector<Proj> out;
    for (int l : ls) { Proj p; p.l = l; p.nc = nc; p.nslot = nslot; p.T.assign(nr * (2 * l + 1) * nslot * nc, 0.0); out.push_back(p); }
    auto ca = cart_order(L);
    std::vector<double> cn(A.c.size());
    for (size_t i = 0; i < A.c.size(); i++) cn[i] = A.c[i] * prim_norm(L, A.a[i]);
    std::vector<double> val(nslot * nc), S(2 * lmax + 1);
    std::vector<std::pair<double, double>> tq;  // (1-cos) nodes
    for (size_t ir = 0; ir < nr; ir++) {
        double r = rg.r[ir];
        double kmax = 2 * amax * d * r;
        tq.clear();
        double t1 = kmax > 24 ? 24 / kmax : 2.0; if (t1 > 1) t1 = 2;
        int n1 = (int) ((22 + (L + lmax) / 2) * o.ang);
        double lo = 0, hi = t1;
        for (;;) {
            if (hi > 1.2) hi = 2;
            const GL &g = gl(n1);
            for (int i = 0; i < n1; i++) tq.push_back({lo + (hi - lo) * (double) g.x[i], (hi - lo) * (double) g.w[i]});
            if (hi >= 2) break;
            // beyond hi the sharpest primitives are dead; stop if all are
            double alive = 0; for (size_t i = 0; i < cn.size(); i++) alive = std::max(alive, std::exp(-2 * A.a[i] * d * r * hi));
            if (alive < 1e-24) break;
            lo = hi; hi = std::min(2.0, 3 * hi);
        }
        for (auto &q : tq) {
            double tt = q.first, ct = 1 - tt, st = std::sqrt(std::max(0.0, tt * (2 - tt)));
            // squared distance from A: (r-d)^2 + 2 r d t
            double rho2 = (r - d) * (r - d) + 2 * r * d * tt;
            double g0 = 0, g1 = 0;
            for (size_t i = 0; i < cn.size(); i++) { double e = cn[i] * std::exp(-A.a[i] * rho2); g0 += e; g1 += 2 * A.a[i] * e; }
            if (g0 == 0 && g1 == 0) continue;
            for (int k = 0; k < np; k++) {
                double ph = 2 * M_PI * k / np, w = q.second * 2 * M_PI / np;
                double cx = st * std::cos(ph), sy = st * std::sin(ph);
                double om[3], x[3];
                for (int a = 0; a < 3; a++) { om[a] = cx * ex[a] + sy * ey[a] + ct * ez[a]; x[a] = r * (cx * ex[a] + sy * ey[a] - tt * ez[a]) + (r - d) * ez[a]; }
                double pw[3][16];
                for (int a = 0; a < 3; a++) { pw[a][0] = 1; for (int n = 1; n <= L + 1; n++) pw[a][n] = pw[a][n - 1] * x[a]; }
                for (int c = 0; c < nc; c++) {
                    double m = pw[0][ca[c][0]] * pw[1][ca[c][1]] * pw[2][ca[c][2]];
                    val[c] = m * g0;
                    if (nslot == 4)
                        for (int a = 0; a < 3; a++) {
                            double dm = 0;
                            if (ca[c][a] > 0) { dm = ca[c][a]; for (int b = 0; b < 3; b++) dm *= pw[b][ca[c][b] - (b == a)]; }
                            val[(a + 1) * nc + c] = m * x[a] * g1 - dm * g0;
                        }
                }
                for (auto &p : out) {
                    solid_harm<double>(p.l, om[0], om[1], om[2], S.data());
                    double *T = &p.T[ir * (2 * p.l + 1) * nslot * nc];
                    for (int m = 0; m <= 2 * p.l; m++) {
                        double ws = w * S[m]; double *tm = T + (size_t) m * nslot * nc;
                        for (int c = 0; c < nslot * nc; c++) tm[c] += ws * val[c];
                    }
                }
            }
        }
    }
    return out;
}

inline double pot_value(const Pt &U, double r)
{
    double s = 0;
    for (size_t k = 0; k < U.c.size(); k++) s += U.c[k] * (U.n[k] == 2 ? 1.0 : U.n[k] == 1 ? 1 / r : std::pow(r, U.n[k] - 2)) * std::exp(-U.a[k] * r * r);
    return s;
}
inline double pot_abs(const Pt &U, double r)
{
    double s = 0;
    for (size_t k = 0; k < U.c.size(); k++) s += std::fabs(U.c[k]) * std::pow(r, U.n[k] - 2) * std::exp(-U.a[k] * r * r);
    return s;
}
// amplitude bound of a shell on the sphere of radius r about C, in the expansion-about-C sense
inline double sh_amp(const Sh &A, double d, double r)
{
    double g = 0;
    for (size_t i = 0; i < A.c.size(); i++) {
        double k = 2 * A.a[i] * d * r;
        g += std::fabs(A.c[i]) * prim_norm(A.L, A.a[i]) * std::exp(-A.a[i] * (r - d) * (r - d)) * std::min(1.0, 1 / (2 * k + 1e-300));
    }
    return g * std::pow(r + d, A.L);
}

inline double shell_reach(const Sh &A, double d)
{
    double R = 0;
    for (size_t i = 0; i < A.c.size(); i++) R = std::max(R, d + std::sqrt((46 + 3 * A.L) / A.a[i]));
    return R;
}

struct SemiRef {          // projected operator: values [slotA*4+slotB], each nA*nB ; so[eta]
    int nA, nB;
    std::vector<Ref> arep;            // index by pair of slots requested
    std::vector<std::array<Ref, 3>> so;
};

// pairs: list of (slotA, slotB)
inline SemiRef ref_semilocal(const Sh &A, const Sh &B, const V3 &C, const Pt &U, const std::vector<std::pair<int, int>> &pairs, bool want_arep, bool want_so, const GridOpt &o = GridOpt())
{
    SemiRef R; R.nA = csize(A.L); R.nB = csize(B.L);
    int n = R.nA * R.nB, l = U.L;
    double dA = nrm(A.o - C), dB = nrm(B.o - C);
    double aA = 0, aB = 0, aU = 0; for (double a : A.a) aA = std::max(aA, a); for (double a : B.a) aB = std::max(aB, a); for (double a : U.a) aU = std::max(aU, a);
    double rmax = std::min(shell_reach(A, dA), shell_reach(B, dB));
    if (!U.a.empty()) { double um = 1e300; for (double a : U.a) um = std::min(um, a); if (um > 0) rmax = std::min(rmax, std::sqrt(60 / um) + 1e-3); }
    auto bound = [&](double r) { r = std::max(r, 1e-12); return r * r * pot_abs(U, r) * sh_amp(A, dA, r) * sh_amp(B, dB, r); };
    RGrid g = make_rgrid({{dA, aA}, {dB, aB}, {0, std::max({aU, aA, aB})}}, rmax, bound, o);
    int ns = 1; for (auto &p : pairs) if (p.first || p.second) ns = 4;
    std::vector<Proj> pa, pb;
    if (!o.scale_only) { pa = project(A, C, {l}, g, ns, o); pb = project(B, C, {l}, g, ns, o); } else want_arep = want_so = false;
    for (size_t ip = 0; ip < pairs.size(); ip++) {
        int sa = pairs[ip].first, sb = pairs[ip].second;
        Ref ar; ar.v.assign(n, 0); ar.s.assign(n, 0);
        std::array<Ref, 3> so; for (auto &x : so) { x.v.assign(n, 0); x.s.assign(n, 0); }
        const auto &M = rot_matrices(l);
        int dm = 2 * l + 1;
        double fa = sa ? 2 * aA : 1, fb = sb ? 2 * aB : 1;
        double sc = 0;
        std::vector<double> mb(dm * R.nB);
        for (size_t ir = 0; ir < g.r.size(); ir++) {
            double r = g.r[ir], w = g.w[ir] * r * r * pot_value(U, r);
            double wa = sa ? (r + dA) + A.L / std::max(r + dA, 1e-3) / fa : 1, wb = sb ? (r + dB) + B.L / std::max(r + dB, 1e-3) / fb : 1;
            sc += g.w[ir] * r * r * pot_abs(U, r) * sh_amp(A, dA, r) * sh_amp(B, dB, r) * fa * wa * fb * wb;
            if (want_arep)
                for (int m = 0; m < dm; m++) {
                    const double *ta = pa[0].at((int) ir, m, sa), *tb = pb[0].at((int) ir, m, sb);
                    for (int i = 0; i < R.nA; i++) { double x = w * ta[i]; if (x != 0) for (int j = 0; j < R.nB; j++) ar.v[i * R.nB + j] += x * tb[j]; }
                }
            if (want_so)
                for (int e = 0; e < 3; e++) {
                    std::fill(mb.begin(), mb.end(), 0.0);
                    for (int m = 0; m < dm; m++) for (int m2 = 0; m2 < dm; m2++) {
                        double c = (double) M[e][m * dm + m2]; if (std::fabs(c) < 1e-14) continue;
                        const double *tb = pb[0].at((int) ir, m2, sb);
                        for (int j = 0; j < R.nB; j++) mb[m * R.nB + j] += c * tb[j];
                    }
                    for (int m = 0; m < dm; m++) {
                        const double *ta = pa[0].at((int) ir, m, sa);
                        for (int i = 0; i < R.nA; i++) { double x = w * ta[i]; if (x != 0) for (int j = 0; j < R.nB; j++) so[e].v[i * R.nB + j] += x * mb[m * R.nB + j]; }
                    }
                }
        }
        sc *= 4 * M_PI;
        for (int i = 0; i < n; i++) { ar.s[i] = sc; for (auto &x : so) x.s[i] = sc * std::max(1, l); }
        R.arep.push_back(ar); R.so.push_back(so);
    }
    return R;
}

// ---- outercore operator
inline double rad_norm(int l, double a) { return std::sqrt(2 * std::pow(2 * a, l + 1.5) / std::tgamma(l + 1.5)); }
inline double rad_value(const Sh &s, double r) { double v = 0; for (size_t i = 0; i < s.c.size(); i++) v += s.c[i] * rad_norm(s.L, s.a[i]) * std::exp(-s.a[i] * r * r); return v * std::pow(r, s.L); }
inline double rad_abs(const Sh &s, double r) { double v = 0; for (size_t i = 0; i < s.c.size(); i++) v += std::fabs(s.c[i]) * rad_norm(s.L, s.a[i]) * std::exp(-s.a[i] * r * r); return v * std::pow(r, s.L); }

inline SemiRef ref_outercore(const Sh &A, const Sh &B, const V3 &C, const std::vector<Oc> &oc, const std::vector<std::pair<int, int>> &pairs, const GridOpt &o = GridOpt())
{
    SemiRef R; R.nA = csize(A.L); R.nB = csize(B.L); int n = R.nA * R.nB;
    int ns = 1; for (auto &p : pairs) if (p.first || p.second) ns = 4;
    for (size_t ip = 0; ip < pairs.size(); ip++) { Ref z; z.v.assign(n, 0); z.s.assign(n, 0); R.arep.push_back(z); R.so.push_back({z, z, z}); }
    // per shell X and outercore function: S[m][slot][c], U[m][slot][c] and abs scales
    struct Side { std::vector<double> S, U; double sS = 0, sU = 0; };
    auto side = [&](const Sh &X, const Oc &q) {
        double d = nrm(X.o - C), aX = 0, aq = 0; for (double a : X.a) aX = std::max(aX, a); for (double a : q.sh.a) aq = std::max(aq, a);
        double aU = 0; for (double a : q.pot.a) aU = std::max(aU, a);
        double rmax = shell_reach(X, d), rq = 0; for (double a : q.sh.a) rq = std::max(rq, std::sqrt((60 + 3 * q.sh.L) / a)); rmax = std::min(rmax, rq);
        auto bound = [&](double r) { r = std::max(r, 1e-12); return r * r * (1e-3 + pot_abs(q.pot, r)) * sh_amp(X, d, r) * rad_abs(q.sh, r); };
        RGrid g = make_rgrid({{d, aX}, {0, std::max({aU, aX, aq})}}, rmax, bound, o);
        auto p = project(X, C, {q.sh.L}, g, ns, o);
        Side s; int nc = csize(X.L), dm = 2 * q.sh.L + 1; s.S.assign(dm * ns * nc, 0); s.U = s.S;
        for (size_t ir = 0; ir < g.r.size(); ir++) {
            double r = g.r[ir], w = g.w[ir] * r * r, R0 = rad_value(q.sh, r), U0 = pot_value(q.pot, r);
            double am = sh_amp(X, d, r), ra = rad_abs(q.sh, r);
            double slope = ns == 4 ? std::max(1.0, 2 * aX * (r + d)) : 1;
            s.sS += w * ra * am * slope; s.sU += w * ra * am * pot_abs(q.pot, r) * slope;
            const double *t = p[0].at((int) ir, 0, 0);
            for (int k = 0; k < dm * ns * nc; k++) { s.S[k] += w * R0 * t[k]; s.U[k] += w * R0 * U0 * t[k]; }
        }
        s.sS *= 4; s.sU *= 4;
        return s;
    };
    std::vector<Side> SA, SB;
    for (auto &q : oc) { SA.push_back(side(A, q)); SB.push_back(side(B, q)); }
    auto add = [&](int l, double f, double fso, double wf, double wso, const std::vector<double> &x, const std::vector<double> &y, double sc) {
        int dm = 2 * l + 1; const auto &M = rot_matrices(l);
        for (size_t ip = 0; ip < pairs.size(); ip++) {
            int sa = pairs[ip].first, sb = pairs[ip].second;
            for (int m = 0; m < dm; m++) {
                const double *xa = &x[(m * ns + sa) * R.nA];
                const double *yb = &y[(m * ns + sb) * R.nB];
                for (int i = 0; i < R.nA; i++) for (int j = 0; j < R.nB; j++) R.arep[ip].v[i * R.nB + j] += f * xa[i] * yb[j];
                for (int e = 0; e < 3; e++) for (int m2 = 0; m2 < dm; m2++) {
                    double c = (double) M[e][m * dm + m2]; if (std::fabs(c) < 1e-14) continue;
                    const double *y2 = &y[(m2 * ns + sb) * R.nB];
                    for (int i = 0; i < R.nA; i++) for (int j = 0; j < R.nB; j++) R.so[ip][e].v[i * R.nB + j] += fso * c * xa[i] * y2[j];
                }
            }
            double ma = 0, mb = 0;
            for (int m = 0; m < dm; m++) {
                for (int i = 0; i < R.nA; i++) ma = std::max(ma, std::fabs(x[(m * ns + sa) * R.nA + i]));
                for (int j = 0; j < R.nB; j++) mb = std::max(mb, std::fabs(y[(m * ns + sb) * R.nB + j]));
            }
            double tight = ma * mb * dm + 5e-3 * sc * dm;
            for (int i = 0; i < n; i++) { R.arep[ip].s[i] += wf * tight; for (int e = 0; e < 3; e++) R.so[ip][e].s[i] += wso * tight * std::max(l, 1); }
        }
    };
    for (size_t i = 0; i < oc.size(); i++) {
        int l = oc[i].sh.L; bool low = oc[i].pot.J < 2 * l;
        double f = low ? l / (2.0 * l + 1) : (l + 1) / (2.0 * l + 1), fso = (low ? -2.0 : 2.0) / (2 * l + 1);
        add(l, f, fso, std::fabs(f), std::fabs(fso), SA[i].S, SB[i].U, SA[i].sS * SB[i].sU);
        add(l, f, fso, std::fabs(f), std::fabs(fso), SA[i].U, SB[i].S, SA[i].sU * SB[i].sS);
        for (size_t j = 0; j < oc.size(); j++) {
            if (oc[j].pot.L != oc[i].pot.L || oc[j].pot.J != oc[i].pot.J) continue;
            const Sh &s1 = oc[i].sh, &s2 = oc[j].sh;
            double am = 0, amin = 1e300; for (double a : s1.a) { am = std::max(am, a); amin = std::min(amin, a); } for (double a : s2.a) am = std::max(am, a);
            for (auto &pt : {oc[i].pot, oc[j].pot}) for (double a : pt.a) am = std::max(am, a);
            double a1 = 1e300, a2 = 1e300; for (double a : s1.a) a1 = std::min(a1, a); for (double a : s2.a) a2 = std::min(a2, a);
            double rmax = std::sqrt((60 + 6 * l) / (a1 + a2));
            auto bound = [&](double r) { r = std::max(r, 1e-12); return r * r * rad_abs(s1, r) * rad_abs(s2, r) * (1e-3 + pot_abs(oc[i].pot, r) + pot_abs(oc[j].pot, r)); };
            RGrid g = make_rgrid({{0, am}}, rmax, bound, o);
            double dl = 0, ds = 0;
            for (size_t ir = 0; ir < g.r.size(); ir++) {
                double r = g.r[ir], w = g.w[ir] * r * r;
                dl += w * rad_value(s1, r) * rad_value(s2, r) * 0.5 * (pot_value(oc[i].pot, r) + pot_value(oc[j].pot, r));
                ds += w * rad_abs(s1, r) * rad_abs(s2, r) * 0.5 * (pot_abs(oc[i].pot, r) + pot_abs(oc[j].pot, r));
            }
            add(l, -dl * f, -dl * fso, ds * std::fabs(f), ds * std::fabs(fso), SA[i].S, SB[j].S, SA[i].sS * SB[j].sS);
        }
    }
    return R;
}

// ================================================================ 4. any local radial function V(r) about C
inline Ref ref_radial_local(const Sh &A, const Sh &B, const V3 &C, const std::function<double(double)> &V, const std::vector<double> &breaks, double vsharp, const GridOpt &o = GridOpt())
{
    int nA = csize(A.L), nB = csize(B.L), n = nA * nB;
    auto ca = cart_order(A.L), cb = cart_order(B.L);
    Ref R; R.v.assign(n, 0); R.s.assign(n, 0);
    for (size_t ip = 0; ip < A.c.size(); ip++) for (size_t jp = 0; jp < B.c.size(); jp++) {
        double a = A.a[ip], b = B.a[jp], p = a + b;
        V3 DA = A.o - C, DB = B.o - C, P = (1 / p) * (a * DA + b * DB); double d = nrm(P);
        V3 AB = A.o - B.o;
        double K = A.c[ip] * B.c[jp] * prim_norm(A.L, a) * prim_norm(B.L, b) * std::exp(-a * b / p * dot(AB, AB));
        if (K == 0) continue;
        V3 ez = d > 0 ? (1 / d) * P : V3{{0, 0, 1}}, t = std::fabs(ez[0]) < 0.6 ? V3{{1, 0, 0}} : V3{{0, 1, 0}};
        V3 ex = t - dot(t, ez) * ez; ex = (1 / nrm(ex)) * ex;
        V3 ey{{ez[1] * ex[2] - ez[2] * ex[1], ez[2] * ex[0] - ez[0] * ex[2], ez[0] * ex[1] - ez[1] * ex[0]}};
        double rmax = d + std::sqrt((46 + 2 * (A.L + B.L)) / p);
        double dA = nrm(DA), dB = nrm(DB);
        auto bound = [&](double r) { r = std::max(r, 1e-12); return r * r * std::fabs(V(r)) * std::exp(-p * (r - d) * (r - d)) * std::min(1.0, 1 / (4 * p * d * r + 1e-300)) * std::pow(r + dA, A.L) * std::pow(r + dB, B.L); };
        RGrid g = make_rgrid({{d, p}, {0, std::max(p, vsharp)}}, rmax, bound, o, breaks);
        int np = A.L + B.L + 3;
        for (size_t ir = 0; ir < g.r.size(); ir++) {
            double r = g.r[ir], k = 2 * p * d * r, wr = g.w[ir] * r * r * V(r) * K;
            double sc = g.w[ir] * r * r * std::fabs(V(r) * K) * std::exp(-p * (r - d) * (r - d)) * std::min(1.0, 1 / (2 * k + 1e-300)) * 4 * M_PI * std::pow(r + dA, A.L) * std::pow(r + dB, B.L);
            for (int i = 0; i < n; i++) R.s[i] += sc;
            if (o.scale_only) continue;
            double t1 = k > 24 ? 24 / k : 2.0; if (t1 > 1) t1 = 2;
            int n1 = (int) ((22 + (A.L + B.L) / 2) * o.ang);
            double lo = 0, hi = t1;
            for (;;) {
                if (hi > 1.2) hi = 2;
                const GL &q = gl(n1);
                for (int it = 0; it < n1; it++) {
                    double tt = lo + (hi - lo) * (double) q.x[it], wt = (hi - lo) * (double) q.w[it];
                    double ct = 1 - tt, st = std::sqrt(std::max(0.0, tt * (2 - tt)));
                    double e = std::exp(-p * ((r - d) * (r - d) + 2 * r * d * tt)) * wr * wt * 2 * M_PI / np;
                    if (e == 0) continue;
                    for (int kk = 0; kk < np; kk++) {
                        double ph = 2 * M_PI * kk / np, cx = st * std::cos(ph), sy = st * std::sin(ph);
                        double pa[3][12], pb[3][12];
                        for (int c = 0; c < 3; c++) {
                            double x = r * (cx * ex[c] + sy * ey[c] + ct * ez[c]);
                            double xa = x - DA[c], xb = x - DB[c];
                            pa[c][0] = pb[c][0] = 1;
                            for (int m = 1; m <= A.L; m++) pa[c][m] = pa[c][m - 1] * xa;
                            for (int m = 1; m <= B.L; m++) pb[c][m] = pb[c][m - 1] * xb;
                        }
                        double vb[80];
                        for (int j = 0; j < nB; j++) vb[j] = e * pb[0][cb[j][0]] * pb[1][cb[j][1]] * pb[2][cb[j][2]];
                        for (int i = 0; i < nA; i++) { double va = pa[0][ca[i][0]] * pa[1][ca[i][1]] * pa[2][ca[i][2]]; for (int j = 0; j < nB; j++) R.v[i * nB + j] += va * vb[j]; }
                    }
                }
                if (hi >= 2 || std::exp(-k * hi) < 1e-24) break;
                lo = hi; hi = std::min(2.0, 3 * hi);
            }
        }
    }
    return R;
}
