// Runner of the monitors: cases are numbered, generated from (seed, property, number) and dealt to forked workers; a worker that dies or
// hangs is itself an observation (the case it was in is reported). Every worker writes JSON lines: violations, counters, maxima, samples.
#pragma once
#include "gen.hpp"
#include <map>
#include <set>
#include <atomic>
#include <cstdarg>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

inline std::string sf(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
inline std::string jq(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += ' '; else o += c; } return o + "\""; }

struct Slot { std::atomic<long> idx; std::atomic<int> done; std::atomic<long> t0; char desc[24000]; };
struct Shared { std::atomic<long> next; std::atomic<int> stop; Slot slot[64]; };

struct Ctx {
    std::string prop, outdir, tier; uint64_t seed = 1; long idx = 0, cases = 0; double tmax = 1e9; int worker = 0; bool only = false;
    Slot *slot = nullptr; Shared *sh = nullptr; FILE *out = nullptr;
    std::map<std::string, double> cnt, mx; std::vector<std::string> samples; std::vector<uint64_t> hashes; int nviol = 0; bool case_failed = false;
    std::string cur;
    void desc(const std::string &s) { cur = s; if (slot) { size_t n = std::min(s.size(), sizeof slot->desc - 1); memcpy(slot->desc, s.data(), n); slot->desc[n] = 0; } }
    void count(const std::string &k, double v = 1) { cnt[k] += v; }
    void maxi(const std::string &k, double v) { auto it = mx.find(k); if (it == mx.end()) mx[k] = v; else if (!(v <= it->second)) it->second = v; }
    void nontrivial(const std::string &s) { hashes.push_back(hash_str(s)); if (samples.size() < 2) samples.push_back(s); }
    void fail(const std::string &msg, const std::string &probe = "")
    {
        nviol++; case_failed = true;
        fprintf(out, "{\"violation\":{\"case\":%ld,\"msg\":%s,\"probe\":%s,\"input\":%s}}\n", idx, jq(msg).c_str(), jq(probe).c_str(), jq(cur).c_str()); fflush(out);
        if (only) printf("case %ld: %s\n%s\n", idx, msg.c_str(), cur.c_str());
        if (probe.empty() && nviol >= 3 && sh) sh->stop = 1;
    }
    Rng rng() const { return Rng(seed * 0x9E3779B97F4A7C15ull ^ hash_str(prop) ^ ((uint64_t) idx * 0xD1B54A32D192ED03ull)); }
};
typedef void (*CheckFn)(Ctx &);
struct Check { CheckFn run, init; };
inline std::map<std::string, Check> &registry() { static std::map<std::string, Check> r; return r; }
struct Reg { Reg(const char *n, CheckFn f, CheckFn i = nullptr) { registry()[n] = {f, i}; } };

// ---------------------------------------------------------------- comparisons
// element-wise comparison with a tolerance; true when all elements agree
inline bool cmp_tol(Ctx &x, const std::string &what, const Mat &got, const std::vector<ld> &want, const std::vector<ld> &tol, const std::string &probe = "")
{
    double w = 0; int wi = -1;
    for (size_t i = 0; i < got.size(); i++) {
        double e = std::fabs((double) ((ld) got[i] - want[i])), q = e == 0 ? 0 : e / (double) tol[i];
        if (!(q <= w)) { w = q; wi = (int) i; }
    }
    if (probe.empty()) x.maxi("max_error_over_tolerance", w);
    x.count("elements_compared", got.size());
    if (!(w <= 1)) { x.fail(sf("%s: element %d is %.17g, expected %.17g, tolerance %.3g", what.c_str(), wi, got[wi], (double) want[wi], (double) tol[wi]), probe); return false; }
    return true;
}
inline bool cmp_ref(Ctx &x, const std::string &what, const std::vector<Mat> &M, const std::vector<RefT> &R, const std::string &probe = "")
{
    for (size_t m = 0; m < M.size(); m++) if (!cmp_tol(x, what + sf("[%d]", (int) m), M[m], R[m].v, R[m].tol, probe)) return false;
    return true;
}
inline std::vector<ld> to_ld(const Mat &m) { return std::vector<ld>(m.begin(), m.end()); }
inline bool same_bits(const std::vector<Mat> &a, const std::vector<Mat> &b, std::string *where = nullptr)
{
    if (a.size() != b.size()) return false;
    for (size_t m = 0; m < a.size(); m++) {
        if (a[m].size() != b[m].size()) return false;
        for (size_t i = 0; i < a[m].size(); i++)
            if (memcmp(&a[m][i], &b[m][i], 8) && !(a[m][i] == 0 && b[m][i] == 0)) { if (where) *where = sf("matrix %d element %d: %.17g against %.17g", (int) m, (int) i, a[m][i], b[m][i]); return false; }
    }
    return true;
}
inline double maxabs(const std::vector<Mat> &M) { double v = 0; for (auto &m : M) for (double x : m) v = std::max(v, std::fabs(x)); return v; }
inline double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

#ifndef MON_NO_MAIN
inline void run_worker(Ctx &x, const Check &c, long limit)
{
    std::string fnm = x.outdir + sf("/w%d.jsonl", x.worker);
    x.out = fopen(fnm.c_str(), "w");
    if (c.init) c.init(x);
    long n = 0; double t0 = wall();
    for (;;) {
        long i = x.sh->next.fetch_add(1);
        if (i >= limit || x.sh->stop || wall() - t0 > x.tmax) break;
        x.idx = i; x.slot->idx = i; x.slot->t0 = (long) wall(); x.case_failed = false; x.desc("(case being generated)");
        double t1 = wall(); c.run(x); n++; t1 = wall() - t1; if (t1 > 5 && getenv("MON_SLOW")) fprintf(stderr, "SLOW case %ld: %.1f s\n", i, t1); x.maxi("slowest_case_s", t1);
    }
    fprintf(x.out, "{\"evaluations\":%ld}\n", n);
    for (auto &k : x.cnt) fprintf(x.out, "{\"count\":{%s:%.17g}}\n", jq(k.first).c_str(), k.second);
    for (auto &k : x.mx) fprintf(x.out, "{\"max\":{%s:%s}}\n", jq(k.first).c_str(), fmt(k.second).c_str());
    for (auto &s : x.samples) fprintf(x.out, "{\"sample\":%s}\n", jq(s).c_str());
    fclose(x.out);
    FILE *h = fopen((x.outdir + sf("/w%d.hash", x.worker)).c_str(), "wb"); fwrite(x.hashes.data(), 8, x.hashes.size(), h); fclose(h);
    x.slot->done = 1;
}

int main(int argc, char **argv)
{
    if (argc < 2) { for (auto &r : registry()) printf("%s\n", r.first.c_str()); return 2; }
    Ctx base; base.prop = argv[1]; long cases = 100; int workers = 8; long only = -1; long hang = 400;
    base.outdir = ".";
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string k = argv[i]; const char *v = argv[i + 1];
        if (k == "--seed") base.seed = strtoull(v, 0, 10); else if (k == "--cases") cases = atol(v); else if (k == "--workers") workers = atoi(v);
        else if (k == "--out") base.outdir = v; else if (k == "--only") only = atol(v); else if (k == "--tier") base.tier = v; else if (k == "--hang") hang = atol(v); else if (k == "--tmax") base.tmax = atof(v);
    }
    base.cases = cases;
    if (!registry().count(base.prop)) { fprintf(stderr, "no check %s\n", argv[1]); return 2; }
    Check c = registry()[base.prop];
    Shared *sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (only >= 0) {
        base.only = true; base.out = stdout; base.sh = sh; base.slot = &sh->slot[0]; base.idx = only;
        if (c.init) c.init(base);
        c.run(base);
        for (auto &k : base.mx) printf("max %s = %.3g\n", k.first.c_str(), k.second);
        return base.nviol ? 1 : 0;
    }
    if (workers > 64) workers = 64;
    FILE *pf = fopen((base.outdir + "/parent.jsonl").c_str(), "w");
    std::vector<pid_t> pid(workers); std::vector<int> alive(workers, 1);
    for (int w = 0; w < workers; w++) {
        fflush(pf);
        pid[w] = fork();
        if (pid[w] == 0) {
            Ctx x = base; x.worker = w; x.sh = sh; x.slot = &sh->slot[w];
            run_worker(x, c, cases); fflush(stdout); _exit(0);
        }
    }
    int left = workers; int bad = 0;
    while (left > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int w = 0; w < workers; w++) if (pid[w] == p && alive[w]) {
                alive[w] = 0; left--;
                if (!sh->slot[w].done) {
                    bad++; sh->stop = 1;
                    std::string why = WIFSIGNALED(st) ? sf("killed by signal %d", WTERMSIG(st)) : sf("exit status %d inside a call", WEXITSTATUS(st));
                    fprintf(pf, "{\"violation\":{\"case\":%ld,\"msg\":%s,\"probe\":\"\",\"crash\":true,\"worker\":%d,\"input\":%s}}\n", (long) sh->slot[w].idx, jq("process ended: " + why).c_str(), w, jq(sh->slot[w].desc).c_str());
                    fflush(pf);
                }
            }
            continue;
        }
        usleep(20000);
        for (int w = 0; w < workers; w++) if (alive[w] && sh->slot[w].t0 && (long) wall() - sh->slot[w].t0 > hang) {
            fprintf(pf, "{\"violation\":{\"case\":%ld,\"msg\":\"call did not return within %ld s\",\"probe\":\"\",\"crash\":true,\"worker\":%d,\"input\":%s}}\n", (long) sh->slot[w].idx, hang, w, jq(sh->slot[w].desc).c_str()); fflush(pf);
            kill(pid[w], SIGKILL); sh->slot[w].done = 1; sh->stop = 1;
        }
    }
    fclose(pf);
    return 0;
}
#endif
