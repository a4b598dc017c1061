// Concurrency monitors: shared objects evaluated by many threads in a process that has just been initialised (C17), concurrent initialisation
// (C30T). Run under ThreadSanitizer and, with more repetitions, without it; every result is compared bitwise with the serial one.
#include "mon.hpp"
#include "fort.hpp"
#include <pthread.h>
#include <fcntl.h>
#include <sched.h>

struct Item { int obj; V3 C, P; int fort; std::vector<Mat> M; };              // object set, centre and point of this call
struct Work { pthread_barrier_t *bar; std::vector<Item> it; std::vector<Objs *> *os; std::vector<FArgs> *fa; std::vector<int> fn, size; int jit; };
static void eval(Item &t, std::vector<Objs *> &os, std::vector<FArgs> &fa, int fn, int n)
{
    int k = FN_NOUT[fn]; t.M.assign(k, Mat(n, 0.0)); std::vector<double *> po; for (auto &m : t.M) po.push_back(m.data());
    if (t.fort) { FArgs f = fa[t.obj]; f.C = t.C.data(); f.P = t.P.data(); fort_call(f, po.data(), t.fort - 1); return; }
    Args a = os[t.obj]->args(); a.C = t.C.data(); a.P = t.P.data(); raw_call(fn, a, po.data());
}
static void *thread_main(void *v)
{
    Work &w = *(Work *) v; pthread_barrier_wait(w.bar);
    for (volatile int i = 0; i < w.jit; i++) ;
    for (auto &t : w.it) eval(t, *w.os, *w.fa, w.fn[t.obj], w.size[t.obj]);
    return 0;
}
struct Out { std::atomic<int> state; char msg[400]; long calls; };
static Out *so;
static std::string logdir;
static void thr_init(Ctx &x) { so = (Out *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
template<class F> static int child(F f)
{
    fflush(0); so->state = 0; so->calls = 0; so->msg[0] = 0; pid_t p = fork();
    if (p == 0) { struct rlimit r0 = {0, 0}; setrlimit(RLIMIT_CORE, &r0); alarm(120); f(); _exit(0); }
    int st = 0; waitpid(p, &st, 0); return st;
}
static std::string ended(int st) { return WIFSIGNALED(st) ? sf("signal %d", WTERMSIG(st)) : WEXITSTATUS(st) == 66 ? "a data race reported by ThreadSanitizer" : sf("exit status %d", WEXITSTATUS(st)); }
static GenOpt small(Rng &g, int fn)
{
    GenOpt o = opt_for(g, fn); o.ncmax = 3; o.npmax = 3; o.budget = std::min(o.budget, 60.0); o.Lmax = std::min(o.Lmax, is_semi(fn) || is_nuc(fn) ? 3 : 5); if (fn == GOC || fn == GFULL) o.Lmax = 1, o.lmax = 2, o.ncmax = 2; if (fn == GT2 || fn == GSO) o.Lmax = 2; if (is_nuc(fn) && fn != NPT) o.budget = 30, o.Lmax = 2;
    if (g.chance(0.1) && !is_semi(fn) && !is_nuc(fn)) o.Lmax = 8;
    return o;
}
static void c17(Ctx &x)
{
    Rng g = x.rng(); std::vector<Case> cs; int kind = g.i(0, 2), nc = kind == 0 ? 1 : kind == 1 ? g.i(2, 4) : g.i(4, 8);      // one shared problem, a few, many families at once
    for (int i = 0; i < nc; i++) { int fn = i == 0 ? ALLF[x.idx % 20] : ALLF[g.i(0, 19)]; GenOpt o = small(g, fn); cs.push_back(gen_case(g, fn, o)); }
    int nt = g.i(2, 8), per = g.i(1, nc > 2 ? 4 : 3); std::string d = "["; for (auto &c : cs) d += (d.size() > 1 ? "," : "") + js(c); x.desc(sf("{\"threads\":%d,\"cases\":", nt) + d + "]}"); x.nontrivial(x.cur); x.count("threads", nt); for (auto &c : cs) x.count(std::string("fn_") + FN_NAME[c.fn]);
    bool move = g.chance(0.6);
    int st = child([&] {      // forked from a process that has initialised the library and evaluated nothing
        std::vector<Objs *> os; std::vector<FArgs> fa; std::vector<int> fn, size;
        for (auto &c : cs) { os.push_back(new Objs(c)); fa.push_back(fort_args([](size_t n) { return malloc(n + 1); }, c)); fn.push_back(c.fn); size.push_back(c.size()); }
        pthread_barrier_t b; pthread_barrier_init(&b, 0, nt); std::vector<Work> w(nt); std::vector<pthread_t> th(nt);
        for (int i = 0; i < nt; i++) {
            w[i].bar = &b; w[i].os = &os; w[i].fa = &fa; w[i].fn = fn; w[i].size = size; w[i].jit = g.chance(0.5) ? 0 : (int) g.logu(1, 1e5);
            for (int k = 0; k < per; k++) {
                Item t; t.obj = k == 0 && kind == 0 ? 0 : g.i(0, nc - 1); const Case &c = cs[t.obj]; t.C = c.C; t.P = c.P; t.fort = has_fort(c.fn) && g.chance(0.15) ? 1 + g.i(0, 1) : 0;
                if (move && base_fn(c.fn) >= T1 && i % 2) { V3 s{{g.uni(-0.3, 0.3), g.uni(-0.3, 0.3), g.uni(-0.3, 0.3)}}; if (c.P == c.C) t.P = t.P + s; t.C = t.C + s; if (is_grad(c.fn) && g.chance(0.5)) t.P = g.pick({c.A.o, c.B.o, t.C}); }
                w[i].it.push_back(t);
            }
        }
        for (int i = 0; i < nt; i++) pthread_create(&th[i], 0, thread_main, &w[i]);
        for (auto t : th) pthread_join(t, 0);
        for (int i = 0; i < nt; i++) for (auto &t : w[i].it) {
            Item s = t; eval(s, os, fa, fn[t.obj], size[t.obj]); std::string wh; so->calls++;
            if (!same_bits(s.M, t.M, &wh)) { snprintf(so->msg, sizeof so->msg, "%s%s: thread %d of %d and the serial call differ, %s", FN_NAME[fn[t.obj]], t.fort ? " (Fortran interface)" : "", i, nt, wh.c_str()); so->state = 2; _exit(0); }
        }
        so->state = 1;
    });
    x.count("concurrent_calls", so->calls);
    if (so->state == 2) x.fail(so->msg); else if (st || so->state != 1) x.fail(sf("%d threads evaluating at once: ", nt) + ended(st));
}
static void c17_init(Ctx &x) { thr_init(x); libgrpp_init(); }
static Reg r17("C17", c17, c17_init);

// ---------------------------------------------------------------- concurrent initialisation
struct In30 { pthread_barrier_t *bar; const Case *c; std::vector<Mat> M; int jit, twice, told; };
static void *init_main(void *v)
{
    In30 &t = *(In30 *) v; pthread_barrier_wait(t.bar); for (volatile int i = 0; i < t.jit; i++) ;
    libgrpp_init(); if (t.twice) libgrpp_init_();
    t.told = 1; t.M = run(*t.c); return 0;
}
static void c30t(Ctx &x)
{
    Rng g = x.rng(); int fn = ALLF[x.idx % 20]; Case c = gen_case(g, fn, small(g, fn)); int nt = g.i(2, 8), pre = g.i(0, 3); x.desc(sf("{\"threads\":%d,\"before\":%d,\"case\":", nt, pre) + js(c) + "}"); x.nontrivial(x.cur); x.count("threads", nt);
    int st = child([&] {
        if (pre == 1) libgrpp_init(); if (pre == 2) { libgrpp_init(); libgrpp_finalize(); }
        pthread_barrier_t b; pthread_barrier_init(&b, 0, nt); std::vector<In30> w(nt); std::vector<pthread_t> th(nt);
        for (int i = 0; i < nt; i++) { w[i].bar = &b; w[i].c = &c; w[i].jit = g.chance(0.5) ? 0 : (int) g.logu(1, 1e6); w[i].twice = g.i(0, 1); pthread_create(&th[i], 0, init_main, &w[i]); }
        for (auto t : th) pthread_join(t, 0);
        if (!libgrpp_is_initialized()) { snprintf(so->msg, 300, "the library is not initialised after %d threads initialised it", nt); so->state = 2; _exit(0); }
        auto M = run(c); std::string wh; for (auto &q : w) if (!same_bits(M, q.M, &wh)) { snprintf(so->msg, 300, "a thread that initialised at the same time as others got another result: %s", wh.c_str()); so->state = 2; _exit(0); }
        so->state = 1;
    });
    if (so->state == 2) x.fail(so->msg); else if (st || so->state != 1) x.fail(sf("%d threads initialising at once: ", nt) + ended(st));
}
static Reg r30("C30T", c30t, thr_init);

// a thread that sees the library ready while another one is initialising it may use it
struct Poll { const Case *c; std::vector<Mat> M; int got; };
static void *poller(void *v)
{
    Poll &p = *(Poll *) v; double t0 = wall();
    while (!libgrpp_is_initialized()) { if (wall() - t0 > 20) return 0; }
    p.M = run(*p.c); p.got = 1; return 0;
}
static void c30p(Ctx &x)
{
    Rng g = x.rng(); static const int F[] = {T2, SO, OC, NGAUSS, T2, FULL, NBALL, GT2}; int fn = F[x.idx % 8]; GenOpt o = small(g, fn); Case c = gen_case(g, fn, o); int nt = g.i(1, 5), pre = g.i(0, 2); x.desc(sf("{\"pollers\":%d,\"before\":%d,\"case\":", nt, pre) + js(c) + "}"); x.nontrivial(x.cur); x.count("polling_threads", nt);
    int st = child([&] {
        if (pre == 2) { libgrpp_init(); libgrpp_finalize(); }
        std::vector<Poll> p(nt); std::vector<pthread_t> th(nt); for (int i = 0; i < nt; i++) { p[i].c = &c; p[i].got = 0; pthread_create(&th[i], 0, poller, &p[i]); }
        if (pre) usleep(g.i(0, 300));
        libgrpp_init(); for (auto t : th) pthread_join(t, 0);
        auto M = run(c); std::string wh; for (auto &q : p) { if (!q.got) { snprintf(so->msg, 300, "the library never reports to be initialised"); so->state = 2; _exit(0); } if (!same_bits(M, q.M, &wh)) { snprintf(so->msg, 300, "a thread told that the library is initialised got a wrong result: %s", wh.c_str()); so->state = 2; _exit(0); } }
        so->state = 1;
    });
    if (so->state == 2) x.fail(so->msg); else if (st || so->state != 1) x.fail("use of the library while it reports to be initialised: " + ended(st));
}
static Reg r30p("C30P", c30p, thr_init);
