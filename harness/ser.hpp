// Flat binary form of cases, for executors in other processes.
#pragma once
#include "model.hpp"
struct Ser {
    std::vector<char> b;
    void i(int v) { const char *p = (const char *) &v; b.insert(b.end(), p, p + 4); }
    void d(double v) { const char *p = (const char *) &v; b.insert(b.end(), p, p + 8); }
    void v3(const V3 &v) { for (double x : v) d(x); }
    void vd(const std::vector<double> &v) { i((int) v.size()); for (double x : v) d(x); }
    void vi(const std::vector<int> &v) { i((int) v.size()); for (int x : v) i(x); }
    void sh(const Sh &s) { i(s.L); v3(s.o); vd(s.c); vd(s.a); }
    void pt(const Pt &p) { i(p.L); i(p.J); vi(p.n); vd(p.c); vd(p.a); }
    void pts(const std::vector<Pt> &v) { i((int) v.size()); for (auto &p : v) pt(p); }
    void ocs(const std::vector<Oc> &v) { i((int) v.size()); for (auto &o : v) { pt(o.pot); sh(o.sh); } }
    void cs(const Case &c) { i(c.fn); sh(c.A); sh(c.B); v3(c.C); v3(c.P); pt(c.U); ocs(c.oc); i(c.gr.has_loc); pt(c.gr.loc); pts(c.gr.arep); pts(c.gr.esop); ocs(c.gr.oc); i(c.Z); vd(c.prm); }
};
struct Des {
    const char *p;
    int i() { int v; memcpy(&v, p, 4); p += 4; return v; }
    double d() { double v; memcpy(&v, p, 8); p += 8; return v; }
    void v3(V3 &v) { for (int k = 0; k < 3; k++) v[k] = d(); }
    void vd(std::vector<double> &v) { int n = i(); v.clear(); for (int k = 0; k < n; k++) v.push_back(d()); }
    void vi(std::vector<int> &v) { int n = i(); v.clear(); for (int k = 0; k < n; k++) v.push_back(i()); }
    void sh(Sh &s) { s.L = i(); v3(s.o); vd(s.c); vd(s.a); }
    void pt(Pt &q) { q.L = i(); q.J = i(); vi(q.n); vd(q.c); vd(q.a); }
    void pts(std::vector<Pt> &v) { v.resize(i()); for (auto &q : v) pt(q); }
    void ocs(std::vector<Oc> &v) { v.resize(i()); for (auto &o : v) { pt(o.pot); sh(o.sh); } }
    void cs(Case &c) { c.fn = i(); sh(c.A); sh(c.B); v3(c.C); v3(c.P); pt(c.U); ocs(c.oc); c.gr.has_loc = i(); pt(c.gr.loc); pts(c.gr.arep); pts(c.gr.esop); ocs(c.gr.oc); c.Z = i(); vd(c.prm); }
};
