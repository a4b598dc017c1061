#!/usr/bin/env python3
"""run.py <property> <quick|thorough>          decide one property on /repo's working tree
   run.py <property> replay <file>             run the recorded case again
   run.py list                                 properties with a check

Every check compiles /repo/libgrpp with the instrumentation its stages need in a scratch folder under /verif/build, runs the real code under
the generated workload while the monitors of harness/ watch it, writes evidence/<property>.json and exits 0 (held) or 1 (VIOLATION printed)."""
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "libgrpp")
HAR = os.path.join(HERE, "harness")
NCPU = min(8, os.cpu_count() or 8)

from checks import CHECKS, FLAVOURS, RULES          # noqa: E402  (tables)


class BuildError(Exception):
    pass


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


class Builder:
    def __init__(self, tmp):
        self.tmp, self.libs = tmp, {}

    def lib(self, flavour):
        """static library of the working tree with the compiler and flags of one flavour"""
        f = FLAVOURS[flavour]
        key = f["cc"] + " " + " ".join(f["cflags"])
        if key in self.libs:
            return self.libs[key]
        d = os.path.join(self.tmp, "lib%d" % len(self.libs))
        os.mkdir(d)
        src = sorted(glob.glob(os.path.join(LIB, "*.c")))
        if not src:
            raise BuildError("no sources in " + LIB)

        def one(s):
            o = os.path.join(d, os.path.basename(s) + ".o")
            r = sh([f["cc"]] + f["cflags"] + ["-w", "-I" + LIB, "-c", s, "-o", o])
            return r.returncode, s, r.stdout, o
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, src))
        for rc, s, out, o in res:
            if rc:
                raise BuildError("compiling %s failed:\n%s" % (s, out[-3000:]))
        a = os.path.join(d, "libgrpp.a")
        r = sh(["ar", "rcs", a] + [x[3] for x in res])
        if r.returncode:
            raise BuildError(r.stdout)
        self.libs[key] = a
        return a

    def symbols(self, a):
        return {x.split()[-1] for x in sh(["nm", "-g", "--defined-only", a]).stdout.splitlines() if len(x.split()) == 3}

    def exe(self, tu, flavour, extra=()):
        f = FLAVOURS[flavour]
        a = self.lib(flavour)
        out = os.path.join(self.tmp, os.path.basename(tu) + "_" + flavour)
        if os.path.exists(out):
            return out
        objs = []
        for e in list(f.get("aux", [])) + list(extra):     # extra C files compiled with their own flags
            s, cc, fl = e[:3]
            o = out + "_%d_" % len(objs) + os.path.basename(s) + ".o"
            fl = ["-I" + LIB if x == "@LIB@" else x for x in fl]
            cmd = [cc] + fl + ["-w", "-I" + LIB, "-I" + HAR, "-c", os.path.join(HAR, s), "-o", o]
            if len(e) > 3 and e[3] not in self.symbols(a):       # internal function this tree does not have
                cmd.append("-DMISSING")
            r = sh(cmd)
            if r.returncode and len(e) > 3:
                r = sh(cmd + ["-DMISSING"])
            if r.returncode:
                raise BuildError("compiling %s failed:\n%s" % (s, r.stdout[-3000:]))
            objs.append(o)
        r = sh([f["cxx"]] + f["cxxflags"] + ["-std=gnu++17", "-w", "-I" + HAR, "-I" + LIB, os.path.join(HAR, tu + ".cpp")] + objs + [a] + f["ldflags"] + ["-o", out])
        if r.returncode:
            raise BuildError("compiling %s (%s) failed:\n%s" % (tu, flavour, r.stdout[-4000:]))
        return out


def known_findings():
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) probe=\"([^\"]+)\" (.*)", line)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


class Result:
    def __init__(self):
        self.viol, self.count, self.max, self.samples, self.hashes, self.evals, self.notes = [], {}, {}, [], set(), 0, []

    def merge_dir(self, d, stage):
        # a worker's buffered last line can be cut when it is killed: such lines are skipped
        for p in sorted(glob.glob(os.path.join(d, "*.jsonl"))):
            for line in open(p, errors="replace"):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "violation" in r:
                    v = r["violation"]
                    v["stage"] = stage
                    self.viol.append(v)
                if "evaluations" in r:
                    self.evals += r["evaluations"]
                for k, v in r.get("count", {}).items():
                    self.count[k] = self.count.get(k, 0) + v
                for k, v in r.get("max", {}).items():
                    v = float(v)
                    self.max[k] = max(self.max.get(k, v), v)
                if "sample" in r and len(self.samples) < 6:
                    self.samples.append({"stage": stage, "case": r["sample"][:1500]})
        for p in glob.glob(os.path.join(d, "*.hash")):
            b = open(p, "rb").read()
            self.hashes.update((stage.split("/")[0], x[0]) for x in struct.iter_unpack("Q", b[: len(b) // 8 * 8]))


def run_stage(b, prop, st, tier, seed, res, only=None, verbose=False):
    """one executable, one flavour; stages written in python provide 'py' instead"""
    if "py" in st:
        from importlib import import_module
        m, fn = st["py"].split(":")
        getattr(import_module(m), fn)(b, prop, st, tier, seed, res, only)
        return
    fl = st.get("flavour", "plain")
    name = st.get("name", prop)
    try:
        exe = b.exe(st["tu"], fl, st.get("extra", ()))
    except BuildError as e:
        if st.get("optional"):
            res.notes.append("stage %s/%s left out: it does not compile against this tree (internal interfaces changed)" % (name, fl))
            return
        raise
    env = dict(os.environ)
    if st.get("exec"):                                     # executor of the cases, in a flavour of its own
        env["MON_EXEC"] = b.exe(st["exec"][0], st["exec"][1])
        env.update(FLAVOURS[st["exec"][1]].get("env", {}))
    env.pop("OMP_NUM_THREADS", None)
    env["OMP_NUM_THREADS"] = "1"
    env.update(FLAVOURS[fl].get("env", {}))
    env.update(st.get("env", {}))
    out = os.path.join(b.tmp, "out_%s_%s" % (name, fl))
    os.makedirs(out, exist_ok=True)
    env["MON_TMP"] = out
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "MSAN_OPTIONS", "TSAN_OPTIONS"):
        if k in env:
            env[k] = env[k].replace("@OUT@", out)
    cases = st["cases"][0 if tier == "quick" else 1]
    tmax = st.get("tmax", (70, 600))[0 if tier == "quick" else 1]
    cmd = [exe, name, "--seed", str(seed), "--cases", str(cases), "--workers", str(st.get("workers", NCPU)), "--out", out, "--tier", tier, "--tmax", str(tmax),
           "--hang", str(st.get("hang", 120 if tier == "quick" else 300))]
    if only is not None:
        cmd += ["--only", str(only)]
    with open(os.path.join(out, "log"), "w") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=out, start_new_session=True)
        try:
            p.wait(timeout=850)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            res.viol.append(dict(case=-1, msg="the run did not end within 850 s", input="", probe="", stage=name + "/" + fl))
    log = open(os.path.join(out, "log"), errors="replace").read()
    if verbose:
        print(log[-6000:])
    if only is not None:
        return p.returncode
    n0 = len(res.viol)
    e0 = res.evals
    res.merge_dir(out, name + "/" + fl)
    # text of the sanitizer reports goes to the violation of the worker that died
    rep = ""
    for r in sorted(glob.glob(os.path.join(out, "san.*"))):
        rep += open(r, errors="replace").read()[:4000]
    for v in res.viol[n0:]:
        if v.get("crash") and (rep or log):
            v["report"] = (rep + log)[:5000]
    if p.returncode not in (0, 1) and len(res.viol) == n0:
        raise BuildError("%s ended with status %s\n%s" % (" ".join(cmd), p.returncode, log[-3000:]))
    if st.get("enough") and not res.count.get(st["enough"]):
        raise BuildError("%s: no part of the workload was completed\n%s" % (" ".join(cmd), log[-3000:]))
    if res.evals == e0 and len(res.viol) == n0:
        raise BuildError("%s: nothing was executed\n%s" % (" ".join(cmd), log[-3000:]))


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "list":
        print("\n".join(CHECKS))
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    spec = CHECKS[prop]
    replay = None
    if tier == "replay":
        replay = json.load(open(sys.argv[3]))
        tier = replay["tier"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if replay:
        seed = replay["seed"]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(HERE, "build"))
    try:
        b = Builder(tmp)
        res = Result()
        if replay:
            for st in spec["stages"]:
                if st.get("name", prop) + "/" + st.get("flavour", "plain") == replay["stage"]:
                    rc = run_stage(b, prop, st, tier, seed, res, only=replay["case"], verbose=True)
                    return 1 if rc else 0
            return 2
        for st in spec["stages"]:
            if st.get("thorough_only") and tier == "quick":
                continue
            run_stage(b, prop, st, tier, seed, res)
            if any(not v.get("probe") for v in res.viol):
                break
        return report(prop, spec, tier, seed, res, t0, b)
    except BuildError as e:
        print("ERROR: " + str(e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, spec, tier, seed, res, t0, b):
    known = known_findings()
    kf, bad = [], []
    for v in res.viol:
        if v.get("probe") and (prop, v["probe"]) in known:
            kf.append(v)
        else:
            bad.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    mx = {k: (v if v == v and abs(v) < 1e300 else str(v)) for k, v in sorted(res.max.items())}
    cov = dict(evaluations=int(res.evals), distinct_nontrivial=len(res.hashes), rule=RULES.get(prop, ""), samples=res.samples[:4],
               observed={k: (int(v) if v == int(v) else v) for k, v in sorted(res.count.items())}, maxima=mx)
    if res.notes:
        cov["notes"] = res.notes
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(bad),
              assumptions=spec.get("assumptions", []) + ["the compilers, their sanitizer runtimes and libm are trusted"])
    if kf:
        cov["known_findings_observed"] = sorted({v["probe"] for v in kf})
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for pr in sorted({v["probe"] for v in kf}):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, pr, known[(prop, pr)]))
    print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s; %s" % (prop, tier, res.evals, len(res.hashes), time.time() - t0,
          ", ".join("%s=%.3g" % kv for kv in list(res.max.items())[:6])))
    if bad:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        v = bad[0]
        path = os.path.join(HERE, "replay", "%s-%s-seed%d.json" % (prop, tier, seed))
        json.dump(dict(property=prop, tier=tier, seed=seed, stage=v.get("stage"), case=v.get("case"), message=v.get("msg"), input=v.get("input"), report=v.get("report", ""),
                       command="python3 run.py %s replay %s" % (prop, path), all=[x.get("msg") for x in bad[:20]]), open(path, "w"), indent=1)
        for x in bad[:3]:
            print("  %s case %s: %s" % (x.get("stage"), x.get("case"), x.get("msg")))
            if x.get("report"):
                print("    " + "\n    ".join(x["report"].splitlines()[:25]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
