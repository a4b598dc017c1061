// Shared data model of the harness: shells, potentials, outercore lists, random generation, JSON text.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <algorithm>
#include <functional>
#include <memory>

extern "C" {
#include "libgrpp.h"
}

typedef std::array<double, 3> V3;

// ---------------------------------------------------------------- random numbers (own generator: same everywhere)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }      // [0,1)
    double uni(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    int i(int a, int b) { return a + (int) (next() % (uint64_t) (b - a + 1)); }       // inclusive
    bool chance(double p) { return u() < p; }
    double sgn() { return (next() & 1) ? 1.0 : -1.0; }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, (int) l.size() - 1)); }
};

// ---------------------------------------------------------------- plain data
struct Sh { int L = 0; V3 o{{0, 0, 0}}; std::vector<double> c, a; };
struct Pt { int L = 0, J = 0; std::vector<int> n; std::vector<double> c, a; };
struct Oc { Pt pot; Sh sh; };
struct Gr { bool has_loc = true; Pt loc; std::vector<Pt> arep, esop; std::vector<Oc> oc; };

inline int csize(int L) { return (L + 1) * (L + 2) / 2; }

// documented order of the components (xx, xy, xz, yy, yz, zz, ...)
inline std::vector<std::array<int, 3>> cart_order(int L)
{
    std::vector<std::array<int, 3>> v;
    for (int x = L; x >= 0; x--)
        for (int y = L - x; y >= 0; y--)
            v.push_back({{x, y, L - x - y}});
    return v;
}

inline double prim_norm(int L, double a) { return std::pow(2 * a / M_PI, 0.75) * std::pow(4 * a, 0.5 * L); }

inline V3 operator+(const V3 &a, const V3 &b) { return {{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
inline V3 operator-(const V3 &a, const V3 &b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
inline V3 operator*(double s, const V3 &a) { return {{s * a[0], s * a[1], s * a[2]}}; }
inline double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double nrm(const V3 &a) { return std::sqrt(dot(a, a)); }
inline V3 rand_dir(Rng &g)
{
    for (;;) {
        V3 v{{g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)}};
        double n = nrm(v);
        if (n > 0.05 && n <= 1) return (1 / n) * v;
    }
}

// ---------------------------------------------------------------- JSON-ish text of a case (for replay files and samples)
inline std::string fmt(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); if (!std::isfinite(x)) return std::string("\"") + b + "\""; return b; }
inline std::string js(const std::vector<double> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + fmt(v[i]); return s + "]"; }
inline std::string js(const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
inline std::string js(const V3 &v) { return "[" + fmt(v[0]) + "," + fmt(v[1]) + "," + fmt(v[2]) + "]"; }
inline std::string js(const Sh &s) { return "{\"L\":" + std::to_string(s.L) + ",\"o\":" + js(s.o) + ",\"c\":" + js(s.c) + ",\"a\":" + js(s.a) + "}"; }
inline std::string js(const Pt &p) { return "{\"L\":" + std::to_string(p.L) + ",\"J\":" + std::to_string(p.J) + ",\"n\":" + js(p.n) + ",\"c\":" + js(p.c) + ",\"a\":" + js(p.a) + "}"; }
inline std::string js(const std::vector<Pt> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + js(v[i]); return s + "]"; }
inline std::string js(const std::vector<Oc> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += std::string(i ? "," : "") + "{\"pot\":" + js(v[i].pot) + ",\"sh\":" + js(v[i].sh) + "}"; return s + "]"; }
inline std::string js(const Gr &g) { return "{\"loc\":" + (g.has_loc ? js(g.loc) : std::string("null")) + ",\"arep\":" + js(g.arep) + ",\"esop\":" + js(g.esop) + ",\"oc\":" + js(g.oc) + "}"; }

// ---------------------------------------------------------------- library objects from plain data
struct LSh {
    libgrpp_shell_t *p;
    explicit LSh(const Sh &s) { Sh t = s; p = libgrpp_new_shell(t.o.data(), t.L, (int) t.c.size(), t.c.data(), t.a.data()); }
    LSh(const LSh &) = delete;
    ~LSh() { libgrpp_delete_shell(p); }
    operator libgrpp_shell_t *() const { return p; }
};
struct LPt {
    libgrpp_potential_t *p;
    explicit LPt(const Pt &s) { Pt t = s; p = libgrpp_new_potential(t.L, t.J, (int) t.c.size(), t.n.data(), t.c.data(), t.a.data()); }
    LPt(const LPt &) = delete;
    ~LPt() { libgrpp_delete_potential(p); }
    operator libgrpp_potential_t *() const { return p; }
};
inline libgrpp_shell_t *new_lsh(const Sh &s) { Sh t = s; return libgrpp_new_shell(t.o.data(), t.L, (int) t.c.size(), t.c.data(), t.a.data()); }
inline libgrpp_potential_t *new_lpt(const Pt &s) { Pt t = s; return libgrpp_new_potential(t.L, t.J, (int) t.c.size(), t.n.data(), t.c.data(), t.a.data()); }
struct LOc {
    std::vector<libgrpp_potential_t *> pots;
    std::vector<libgrpp_shell_t *> shells;
    explicit LOc(const std::vector<Oc> &v) { for (auto &o : v) { pots.push_back(new_lpt(o.pot)); shells.push_back(new_lsh(o.sh)); } }
    LOc(const LOc &) = delete;
    ~LOc() { for (auto p : pots) libgrpp_delete_potential(p); for (auto s : shells) libgrpp_delete_shell(s); }
    int n() const { return (int) pots.size(); }
};
struct LGr {     // the object owns its parts once added
    libgrpp_grpp_t *p;
    explicit LGr(const Gr &g)
    {
        p = libgrpp_new_grpp();
        if (g.has_loc) libgrpp_grpp_set_local_potential(p, new_lpt(g.loc));
        for (auto &q : g.arep) libgrpp_grpp_add_averaged_potential(p, new_lpt(q));
        for (auto &q : g.esop) libgrpp_grpp_add_spin_orbit_potential(p, new_lpt(q));
        for (auto &q : g.oc) libgrpp_grpp_add_outercore_potential(p, new_lpt(q.pot), new_lsh(q.sh));
    }
    LGr(const LGr &) = delete;
    ~LGr() { libgrpp_delete_grpp(p); }
    operator libgrpp_grpp_t *() const { return p; }
};

typedef std::vector<double> Mat;
