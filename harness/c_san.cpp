// Workload of the sanitizer monitors (C20): chunks of cases are written to a file and executed by x_san (ASan+UBSan, MSan) in a process of its own.
#include "mon.hpp"
#include "ser.hpp"
#include <fcntl.h>

static std::string exe;
static void san_init(Ctx &) { const char *e = getenv("MON_EXEC"); if (!e) { fprintf(stderr, "MON_EXEC is not set\n"); _exit(9); } exe = e; }
static const int CHUNK = 30;
static void extreme(Rng &g, Case &c)
{
    switch (g.i(0, 13)) {
    case 0: c.A.c.assign(is_grad(c.fn) || (is_nuc(c.fn) && c.fn != NPT) || is_semi(c.fn) ? g.i(12, 22) : c.fn == T1 ? g.i(30, 60) : g.i(30, 200), 0.5); c.A.a.resize(c.A.c.size()); for (auto &v : c.A.a) v = g.logu(0.05, 50); break;
    case 1: for (auto &v : c.A.a) v = g.logu(1e4, 1e9); break;
    case 2: for (auto &v : c.B.a) v = g.logu(1e-6, 1e-3); break;
    case 3: c.U.c.clear(); c.U.n.clear(); c.U.a.clear(); break;
    case 4: if (!is_semi(c.fn) && !is_nuc(c.fn)) c.B.o = c.B.o + g.logu(30, 1e4) * rand_dir(g); break;
    case 5: c.B.o = c.A.o + g.logu(1e-14, 1e-3) * rand_dir(g); break;
    case 6: c.A.o = c.C + g.logu(1e-14, 1e-3) * rand_dir(g); break;
    case 7: for (auto &v : c.A.c) v = g.pick({0.0, 1e-20, 1e10}); break;
    case 8: for (auto &v : c.U.a) v = g.pick({0.0, 1e-8, 1e7}); break;
    case 9: c.oc.clear(); c.gr = Gr(); c.gr.has_loc = false; break;
    case 10: if (is_grad(c.fn)) c.P = c.C; c.A.o = c.B.o = c.C; break;
    case 11: for (auto &v : c.A.o) v += 1e3; for (auto &v : c.B.o) v += 1e3; for (auto &v : c.C) v += 1e3; for (auto &v : c.P) v += 1e3; break;
    case 12: c.Z = g.pick({0, -1, 1000}); for (auto &v : c.prm) v *= g.pick({1e-3, 1.0, 1e3}); break;
    case 13: { int n = g.i(10, 40); c.U.c.assign(n, 0.1); c.U.n.assign(n, g.i(0, 2)); c.U.a.resize(n); for (auto &v : c.U.a) v = g.logu(0.1, 100); } break;
    }
}
// all pairs of angular momenta; the numerical families meet the highest ones with coinciding centres and single primitives
static Case swept(Rng &g, long k, double &tol)
{
    static const int F[] = {OVL, KIN, MOM, T1, NPT, GOVL, GT1, T2, SO, OC, FULL, NGAUSS, GT2, GSO, GOC, GFULL, NNUM, NBALL, NFERMI, NBUB}; int fn = F[k % 20]; GenOpt o; o.ncmax = 1; o.npmax = 1; long r = k / 20; o.LA = (int) (r % 11); o.LB = (int) (r * 7 / 11 % 11); o.l = (int) (r * 3 % 11); o.lmax = 10; tol = 1e-3;
    if (is_semi(fn) || (is_nuc(fn) && fn != NPT)) {
        int s = o.LA + o.LB; o.geo = s > 9 ? GEO_ALL1 : s > 6 ? g.pick({(int) GEO_AC, (int) GEO_BC}) : g.i(0, NGEO - 1); if (s > 4 && g.chance(0.7)) o.geo = GEO_ALL1; int w = s + (is_nuc(fn) ? 6 : 2 * o.l) + (is_grad(fn) ? 3 : 0) + (fn == FULL || fn == GFULL ? 2 : 0); if (w > 13) o.geo = GEO_ALL1; else if (w > 9) o.geo = g.pick({(int) GEO_AC, (int) GEO_BC});
        if (is_grad(fn) && base_fn(fn) != OC && s > 10) { if (o.LA > o.LB) o.LB = g.i(0, 3); else o.LA = g.i(0, 3); }
        if (fn == OC || fn == GOC || fn == FULL || fn == GFULL) { if (s > 10) { if (g.chance(0.5)) o.LB = g.i(0, 2); else o.LA = g.i(0, 2); } if (o.l > 5 && s > 8) o.l = g.i(0, 5); if (fn == FULL || fn == GFULL) o.l = std::min(o.l, 6); }
    } else o.geo = g.i(0, NGEO - 1);
    Case c = gen_case(g, fn, o);
    if (fn == GOC && c.oc.size() > 2) c.oc.resize(2); if (fn == GFULL) { if (c.gr.oc.size() > 1) c.gr.oc.resize(1); if (c.gr.arep.size() > 1) c.gr.arep.resize(1); if (c.gr.esop.size() > 1) c.gr.esop.resize(1); }
    return c;
}
static void c20(Ctx &x)
{
    Rng g = x.rng(); Ser s; s.i(CHUNK); std::vector<std::string> txt;
    for (int k = 0; k < CHUNK; k++) {
        long id = x.idx * CHUNK + k; int w = (int) (id % 10);
        if (w == 9) {
            if (g.chance(0.6)) { const double fm = 1 / 52917.7210903; s.i(1); double v[6] = {g.uni(0.5, 8) * fm, g.uni(1, 8) * fm, g.uni(0.3, 0.7) * fm, g.uni(-0.5, 2), g.logu(1e-8, 100), (double) g.i(1, 120)}; int A = g.i(1, 400); for (double q : v) s.d(q); s.i(A); txt.push_back("scalars " + js(std::vector<double>(v, v + 6)) + std::to_string(A)); }
            else { s.i(2); int m = g.chance(0.3) ? g.i(100, 700) : g.i(0, 40); Case c = gen_case(g, OC, GenOpt()); Pt p; gen_pot(g, p, g.i(0, 10), GenOpt(), 0); s.i(m); s.pt(p); s.sh(c.A); txt.push_back(sf("object of %d parts", m)); }
            x.count("other"); continue;
        }
        double tol = g.pick({1e-14, 1e-8, 1e-3}); Case c;
        if (w < 4) { c = swept(g, (id / 10) * 4 + w + (long) (x.seed * 1013), tol); x.count("swept"); } else { int fn = ALLF[g.i(0, 19)]; GenOpt o = opt_for(g, fn); o.budget = std::min(o.budget, 40.0); if (is_semi(fn) || (is_nuc(fn) && fn != NPT)) o.Lmax = std::min(o.Lmax, is_grad(fn) ? 2 : 3), o.lmax = is_grad(fn) ? 3 : 4; if (fn == GOC || fn == GFULL) o.Lmax = 2, o.lmax = 2; o.ncmax = 3; c = gen_case(g, fn, o); if (w < 8) extreme(g, c); x.count("random"); }
        int flags = (int) (g.next() & 15) | (g.chance(0.05) ? 16 : 0) | (g.chance(0.1) ? 32 : 0) | (g.chance(0.1) ? 64 : 0);
        s.i(0); s.i(flags); s.d(tol); s.cs(c); txt.push_back(js(c) + sf(" flags %d tolerance %g", flags, tol)); x.count(std::string("fn_") + FN_NAME[c.fn]); x.maxi(sf("LA_%s", FN_NAME[c.fn]), c.A.L); x.maxi(sf("LB_%s", FN_NAME[c.fn]), c.B.L);
        x.nontrivial(txt.back());
    }
    std::string f = x.outdir + sf("/cases%d.bin", x.worker), log = x.outdir + sf("/exec%d.log", x.worker);
    if (x.only) { f = "/tmp/x_san_only.bin"; const char *t = getenv("MON_TMP"); if (t) f = std::string(t) + "/only.bin"; log = f + ".log"; }
    FILE *q = fopen(f.c_str(), "wb"); fwrite(s.b.data(), 1, s.b.size(), q); fclose(q); unlink((f + ".at").c_str());
    x.desc("[" + txt[0] + ", ...]"); fflush(0);
    pid_t p = fork();
    if (p == 0) { struct rlimit r0 = {0, 0}; setrlimit(RLIMIT_CORE, &r0); int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); alarm(x.tier == "thorough" ? 280 : 45); execl(exe.c_str(), exe.c_str(), f.c_str(), (char *) 0); _exit(9); }
    int st = 0; double t0 = wall(); waitpid(p, &st, 0); x.maxi("longest_chunk_s", wall() - t0); 
    if (!st) x.count("cases_executed", CHUNK), x.count("chunks_completed");
    if (getenv("MON_SLOW")) { FILE *l = fopen(log.c_str(), "r"); int k; double t; char b[3000]; while (l && fgets(b, sizeof b, l)) if (sscanf(b, "case %d: %lf s", &k, &t) == 2) fprintf(stderr, "SLOW %.1f %s\n", t, txt[k].c_str()); if (l) fclose(l); }
    if (st) {
        int at = -1; FILE *a = fopen((f + ".at").c_str(), "rb"); if (a) { if (fread(&at, 4, 1, a) != 1) at = -1; fclose(a); }
        std::string rep; FILE *l = fopen(log.c_str(), "r"); if (l) { char b[3000]; size_t n = fread(b, 1, sizeof b - 1, l); b[n] = 0; rep = b; fclose(l); }
        if (at >= 0 && at < CHUNK) x.desc(txt[at]);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { x.count("chunks_out_of_time"); return; }      // cost of the instrumentation, not a verdict
        x.fail((WIFSIGNALED(st) ? sf("ended by signal %d: ", WTERMSIG(st)) : sf("exit status %d: ", WEXITSTATUS(st))) + rep.substr(0, 1800));
    }
}
static Reg r20("C20", c20, san_init); static Reg r20m("C20M", c20, san_init);
