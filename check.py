#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--run NAME] [--keep]

Decides one property by symbolic execution of the code in /repo (see DESIGN.md):
builds /repo's sources through the instrumenting pass, explores every path of the
property's harnesses, lets the SMT solver decide every obligation, replays each
counterexample natively and writes evidence/<property>.json."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, random

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYM_REPO", "/repo")
ENG = VERIF + "/engine"
HAR = VERIF + "/harness"
CACHE = os.environ.get("SYM_CACHE", VERIF + "/.cache")
MAV = "subpackages/mav_trajectory_generation"
JOBS = min(8, os.cpu_count() or 4)
sys.path.insert(0, VERIF)
import specs

INCS = ["-I" + ENG, "-I" + HAR, "-I" + CACHE + "/gen"]
RINCS = ["-I" + REPO + "/include", "-I" + REPO + "/include/dynamic_trajectory_generator",
         "-I" + REPO + "/" + MAV + "/include", "-isystem", "/usr/include/eigen3"]
CLANG = "/usr/bin/clang++"


class Inconclusive(Exception):
    pass


GROUPS = set()  # process groups of running symbolic executions


def on_term(sig, frame):
    for g in list(GROUPS):
        try:
            os.killpg(g, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os._exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(h, path):
    h.update(path.encode())
    with open(path, "rb") as f:
        h.update(f.read())


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    file_hash(h, os.path.join(root, f))
    return h.hexdigest()


class Builder:
    """Compiles with a content-addressed cache: the key covers every header and source."""

    def __init__(self):
        os.makedirs(CACHE + "/gen", exist_ok=True)
        for src, name, pat, rep in (("SparseQR/SparseQR.h", "sparseqr", "if(tau==Scalar(0)) continue;", ""),
                                    ("SparseCore/TriangularSolver.h", "sparsetri", "if (tmp!=Scalar(0))", "")):
            txt = open("/usr/include/eigen3/Eigen/src/" + src).read().replace(pat, rep)
            gen = "%s/gen/%s_noskip.h" % (CACHE, name)
            if not os.path.exists(gen) or open(gen).read() != txt:
                tmp = gen + ".%d" % os.getpid()
                open(tmp, "w").write(txt)
                os.rename(tmp, gen)
        self.repo_h = tree_hash([REPO + "/include", REPO + "/src", REPO + "/" + MAV + "/include",
                                 REPO + "/" + MAV + "/src"], (".h", ".hpp", ".cpp", ".cc", ".hh", ".ipp", ".inl"))
        self.har_h = tree_hash([HAR], (".h", ".hpp"))
        self.eng_h = tree_hash([ENG], (".h", ".cpp", ".map"))
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.secs = 0.0
        self.mx, self.locks = threading.Lock(), {}

    def produce(self, key, name, cmd):
        out = "%s/%s-%s" % (CACHE, key[:24], name)
        if os.path.exists(out):
            return out
        with self.mx:
            lock = self.locks.setdefault(out, threading.Lock())
        with lock:
            return out if os.path.exists(out) else self.make(out, name, cmd)

    def make(self, out, name, cmd):
        tmp = out + ".%d.tmp%s" % (os.getpid(), os.path.splitext(name)[1])
        t = time.time()
        r = sh(cmd(tmp))
        self.secs += time.time() - t
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            raise Inconclusive("build failed: " + " ".join(cmd(tmp)))
        os.rename(tmp, out)
        return out

    def key(self, *parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(repr(p).encode())
        return h.hexdigest()

    def plugin(self):
        src = ENG + "/SymPass.cpp"
        k = self.key("plugin", open(src).read())
        flags = sh(["llvm-config-18", "--cppflags"]).stdout.split()
        return self.produce(k, "SymPass.so", lambda o: ["g++", "-O1", "-std=c++17", "-fPIC", "-shared", "-fno-rtti", "-w"] + flags + [src, "-o", o])

    def runtime(self):
        src = ENG + "/symrt.cpp"
        k = self.key("rt", open(src).read(), open(ENG + "/symrt.map").read(), open(ENG + "/sym.h").read())
        return self.produce(k, "libsymrt.so", lambda o: ["g++", "-O2", "-std=c++17", "-fPIC", "-shared", "-fvisibility=hidden", "-w", src, "-o", o,
                            "-Wl,--version-script=" + ENG + "/symrt.map", "-Wl,-Bsymbolic", "-lgmpxx", "-lgmp"])

    def server(self):
        """the solver server and the library it loads, or None"""
        src = ENG + "/z3srv.cpp"
        exe = shutil.which("z3-new")
        libs = sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.realpath(exe))) + "/lib/python3*/site-packages/z3/lib/libz3.so")) if exe else []
        if not libs or os.environ.get("SYM_NOSRV"):
            return None
        k = self.key("z3srv", open(src).read())
        return self.produce(k, "z3srv", lambda o: ["g++", "-O1", "-std=c++17", "-w", src, "-o", o, "-ldl"]), libs[0]

    def obj(self, src, mode, extra=(), plugin=None):
        fl = ["-std=c++17", "-w"] + list(extra) + INCS + RINCS
        if mode == "sym":
            fl = ["-O1", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-DEIGEN_DONT_VECTORIZE", "-DSYM_MODE=1",
                  "-fpass-plugin=" + plugin] + fl
            cc = CLANG
        elif mode == "nat":
            fl = ["-O2", "-DSYM_MODE=0"] + fl
            cc = "g++"
        elif mode == "natc":    # native arithmetic, with the same thread switching points
            fl = ["-O2", "-DSYM_MODE=0", "-fpass-plugin=" + plugin] + fl
            cc = CLANG
        elif mode == "plain":   # engine support code, never instrumented
            fl = ["-O1", "-DSYM_MODE=1"] + fl
            cc = "g++"
        dep = self.repo_h
        k = self.key(mode, fl, open(src).read(), src, dep, self.har_h, self.eng_h)
        return self.produce(k, os.path.basename(src) + "." + mode + ".o", lambda o: (["env", "SYMPASS_ATOMIC=1"] if mode == "natc" else []) + [cc] + fl + ["-c", src, "-o", o])

    def build(self, run, want_native=True):
        """returns futures (sym_binary, native_binary)"""
        harness = HAR + "/" + run["harness"]
        extra = list(run.get("cxxflags", []))
        repo_srcs = []
        for pat in run["srcs"]:
            f = REPO + "/" + (pat if pat.startswith("src/") else MAV + "/src/" + pat)
            if os.path.exists(f):
                repo_srcs.append(f)
        # a refactoring may add source files next to the listed ones
        known = set(specs.KNOWN_SOURCES)
        for d in (MAV + "/src", MAV + "/src/rpoly", "src"):
            full = REPO + "/" + d
            if os.path.isdir(full):
                for f in sorted(os.listdir(full)):
                    rel = d + "/" + f
                    if f.endswith(".cpp") and rel not in known:
                        if not re.search(r"^\s*int\s+main\s*\(", open(full + "/" + f).read(), re.M):
                            repo_srcs.append(full + "/" + f)
        har_srcs = [harness] + [HAR + "/" + x for x in run.get("extra", [])]
        plain = [ENG + "/" + x if os.path.exists(ENG + "/" + x) else HAR + "/" + x for x in run.get("plain", [])]
        libs = run.get("libs", ["-lglog"])

        def one(mode):
            fs = []
            plugin = rt = None
            cmode = mode
            if mode == "nat" and run.get("sched"):
                cmode = "natc"
            if mode == "sym":
                frt = self.pool.submit(self.runtime)
            if cmode != "nat":
                plugin = self.pool.submit(self.plugin).result()
            for s in har_srcs:
                fs.append(self.pool.submit(self.obj, s, cmode, extra, plugin))
            rs = [self.pool.submit(self.obj, s, cmode, extra, plugin) for s in repo_srcs]
            if mode == "sym":
                fs.append(self.pool.submit(self.obj, ENG + "/symmain.cpp", "plain"))
                fs += [self.pool.submit(self.obj, s, "plain", extra) for s in plain]
                rt = frt.result()
            else:
                fs.append(self.pool.submit(self.obj, ENG + "/native.cpp", "nat"))
                fs += [self.pool.submit(self.obj, s, "nat", extra) for s in plain]
            objs = [f.result() for f in fs]
            robjs = [f.result() for f in rs]
            k = self.key("link", objs, robjs, rt, libs, run.get("ldflags", []))
            name = run["harness"].replace(".cpp", "") + "." + mode

            def cmd(o):
                ar = o + ".a"
                if os.path.exists(ar):
                    os.remove(ar)
                if robjs:
                    r = sh(["ar", "rcs", ar] + robjs)
                    if r.returncode:
                        raise Inconclusive("ar: " + r.stdout)
                c = ["g++", "-rdynamic", "-o", o] + objs
                if robjs:
                    c += ["-Wl,--start-group", ar, "-Wl,--end-group"]
                if mode == "sym":
                    c += [rt, "-Wl,-rpath," + os.path.dirname(rt)]
                return c + run.get("ldflags", []) + libs + ["-lpthread", "-ldl"]
            return self.produce(k, name, cmd)
        out = {"sym": None, "nat": None}
        with cf.ThreadPoolExecutor(2) as p2:
            a = p2.submit(one, "sym")
            b = p2.submit(one, "nat") if want_native else None
            out["sym"] = a.result()
            out["nat"] = b.result() if b else None
        return out


def read_log(path):
    recs = []
    if not os.path.exists(path):
        return recs
    with open(path, errors="replace") as f:
        for line in f:
            try:
                recs.append(json.loads(line))
            except ValueError:
                recs.append({"t": "badline", "line": line[:200]})
    return recs


def write_inputs(path, inp):
    with open(path, "w") as f:
        for k, v in inp.items():
            f.write("%s %s\n" % (k, v if not isinstance(v, str) else v))


def run_native(binary, inp_file, run, work, thorough, tag="r", timeout=60):
    out = "%s/nat-%s-%d.out" % (work, tag, random.randrange(1 << 60))
    cmd = [binary, "--in", inp_file, "--out", out]
    if thorough:
        cmd.append("--thorough")
    for k, v in run.get("args", {}).items():
        cmd += ["--arg", "%s=%s" % (k, v)]
    wd = tempfile.mkdtemp(dir=work)
    status = None
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=wd, timeout=timeout,
                           env=dict(os.environ, GLOG_minloglevel="4"))
        status = p.returncode
    except subprocess.TimeoutExpired:
        status = "timeout"
    fails, obs, allow = [], [], False
    reach = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            if line.startswith("FAIL "):
                fails.append(line[5:].strip())
            elif line.startswith("OBS "):
                p = line.split()
                obs.append((p[1], float(p[2])))
            elif line.startswith("ALLOW_ABORT"):
                allow = True
            elif line.startswith("NO_ABORT"):
                allow = False
            elif line.startswith("REACH"):
                reach.append(line[6:].strip())
        os.remove(out)
    shutil.rmtree(wd, ignore_errors=True)
    if isinstance(status, int) and status < 0 and not (allow and status == -6):
        fails.append("crash-signal-%d" % -status)
    if status == "timeout":
        fails.append("hang")
    return {"status": status, "fails": fails, "obs": obs, "reach": reach}


def run_symbolic(binary, run, work, thorough, budget, grace, server=None):
    """explores every path; with a grace period, stops that long after the first counterexample"""
    log = work + "/" + run["name"] + ".log"
    cmd = [binary, "--log", log, "--jobs", str(JOBS), "--wall", str(budget),
           "--path-s", str(run.get("path_s", 120 if thorough else 90)),
           "--q-ms", str(run.get("q_ms", 10000)), "--q2-ms", str(run.get("q2_ms", 180000 if thorough else 60000)),
           "--max-paths", str(run.get("max_paths", 400000))]
    if server:
        cmd += ["--z3srv", server[0], "--z3lib", server[1]]
    if thorough:
        cmd += ["--thorough", "--cross"]
    for k, v in run.get("args", {}).items():
        cmd += ["--arg", "%s=%s" % (k, v)]
    wd = tempfile.mkdtemp(dir=work)
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=wd, start_new_session=True,
                         env=dict(os.environ, GLOG_minloglevel="4"))
    GROUPS.add(p.pid)
    rc, end, pos, tail = None, t + budget + (600 if thorough else 40), 0, b""
    while rc is None and time.time() < end:
        try:
            rc = p.wait(1)
        except subprocess.TimeoutExpired:
            if grace and os.path.exists(log):
                with open(log, "rb") as f:
                    f.seek(pos)
                    new = tail + f.read()
                    pos = f.tell()
                if b'"t":"v"' in new or b'"t":"hang"' in new:
                    end, grace = min(end, time.time() + grace), 0
                tail = new[-20:]
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    shutil.rmtree(wd, ignore_errors=True)
    return read_log(log), rc, time.time() - t


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    out = set()
    for l in r.stdout.splitlines():
        l = re.sub(r"\[abi:[a-z0-9]+\]", "", l)
        out.add(re.sub(r"\(.*$", "", l)[:160])
    return sorted(out)


def perturbations(inp, rng, n=24):
    """nearby inputs: a counterexample over the reals may sit on a rounding boundary"""
    yield inp
    keys = [k for k, v in inp.items() if isinstance(v, float)]
    for i in range(n):
        d = dict(inp)
        sc = 10.0 ** -rng.choice([15, 12, 9, 7, 6])
        for k in keys:
            if rng.random() < 0.7:
                d[k] = d[k] + rng.uniform(-1, 1) * sc * max(1.0, abs(d[k]))
        yield d


def main():
    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--run", action="append")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay", help="run one input file natively and print what fails")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = random.Random(seed)
    thorough = a.tier == "thorough"
    spec = specs.CHECKS[a.prop]
    runs = [dict(r) for r in spec["runs"] if not (r.get("tier") == "thorough" and not thorough)]
    for r in runs:
        if thorough and "thorough_args" in r:
            r["args"] = dict(r.get("args", {}), **r["thorough_args"])
    if a.run:
        runs = [r for r in runs if r["name"] in a.run]
    work = tempfile.mkdtemp(prefix="sym-%s-" % a.prop)
    if a.replay:
        bld = Builder()
        res = run_native(bld.build(runs[0])["nat"], a.replay, runs[0], work, thorough)
        shutil.rmtree(work, ignore_errors=True)
        print("status", res["status"], *["\nFAIL " + f for f in res["fails"]])
        sys.exit(1 if res["fails"] else 0)
    budget_total = float(os.environ.get("SYM_BUDGET", 6 * 3600 if thorough else 800))
    known = [k for k in json.load(open(VERIF + "/known_findings.json"))["findings"] if k["property"] == a.prop]
    bld = Builder()
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": {}, "assumptions": spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS}
    tot = dict(paths=0, infeasible=0, assumed=0, decisions=0, obligations=0, discharged=0, ideal=0, band=0, queries=0, solver_s=0.0, unknown=0,
               lin=0, nonlin=0, replays=0, validated=0, cross_agree=0, cross_timeout=0, path_obl=0, mism=0, boundary=0)
    fns, samples, problems, violations, knowns, spurious = set(), [], [], [], [], []
    per_run = []
    solver_by = {}
    try:
        with cf.ThreadPoolExecutor(len(runs) or 1) as bp:
            builds = {r["name"]: bp.submit(bld.build, r) for r in runs}
            for r in runs:
                try:
                    b = builds[r["name"]].result()
                except Inconclusive as e:
                    problems.append("%s: %s" % (r["name"], e))
                    continue
                left = budget_total - (time.time() - t0)
                if left < 20:
                    problems.append("%s: no time left" % r["name"])
                    continue
                if violations:
                    break  # decided
                recs, rc, secs = run_symbolic(b["sym"], r, work, thorough, min(left - 10, r.get("wall", 1e9)), 0 if any(k.get("status") != "fixed" for k in known) else 40, bld.server())
                st = dict(name=r["name"], harness=r["harness"], paths=0, obligations=0, discharged=0, seconds=round(secs, 2), what=r.get("what", ""))
                if rc != 0:
                    problems.append("%s: exploration ended with %s" % (r["name"], rc))
                reach, asserted = set(), {}
                vrec, okp, done = [], [], None
                for x in recs:
                    t = x.get("t")
                    if t == "p":
                        how = x["how"]
                        if how == "infeasible":
                            tot["infeasible"] += 1
                        elif how == "assume":
                            tot["assumed"] += 1
                        else:
                            tot["paths"] += 1
                            st["paths"] += 1
                        tot["decisions"] += x.get("pc", 0)
                        tot["band"] += x.get("band", 0)
                        if how in ("end", "abort-allowed") and x.get("ok"):
                            okp.append(x)
                        if how == "stopped":
                            problems.append("%s: exploration stopped at a limit" % r["name"])
                        if how == "fatal":
                            problems.append("%s: fatal" % r["name"])
                    elif t == "q":
                        tot["queries"] += 1
                        tot["solver_s"] += x["s"]
                        tot["lin" if x["lin"] else "nonlin"] += 1
                        if x.get("by"):
                            solver_by[x["by"]] = solver_by.get(x["by"], 0) + 1
                        if x.get("x") == "agree":
                            tot["cross_agree"] += 1
                        elif x.get("x") == "timeout":
                            tot["cross_timeout"] += 1
                        elif x.get("x") == "DISAGREE":
                            problems.append("%s: solvers disagree" % r["name"])
                    elif t == "a":
                        tot["obligations"] += 1
                        st["obligations"] += 1
                        if x["r"] == 0:
                            tot["discharged"] += 1
                            st["discharged"] += 1
                            if x.get("path"):
                                tot["path_obl"] += 1
                        if x.get("ideal"):
                            tot["ideal"] += 1
                        w = asserted.setdefault(x["id"], [0, 0])
                        w[0] += 1
                        w[1] += 1 if x.get("ok") else 0
                    elif t == "done":
                        done = x
                    elif t == "v":
                        vrec.append(x)
                    elif t == "unknown":
                        tot["unknown"] += 1
                        problems.append("%s: obligation %s undecided within the solver budget" % (r["name"], x["id"]))
                    elif t == "hang":
                        vrec.append(dict(x, id="hang"))
                    elif t == "fn":
                        fns.add(x["n"])
                    elif t == "reach":
                        if x.get("ok"):
                            reach.add(x["id"])
                    elif t in ("fatal", "limit", "childsig", "badline"):
                        problems.append("%s: %s" % (r["name"], json.dumps(x)[:300]))
                    elif t == "note" and a.v:
                        print("note:", x["m"])
                # ---- every path that was started must have come to its end
                if not vrec and (done is None or done["started"] != done["finished"]):
                    problems.append("%s: exploration incomplete: %s" % (r["name"], json.dumps(done)))
                # ---- violations: replay each distinct assertion until one reproduces
                byid = {}
                for v in vrec:
                    byid.setdefault(v["id"], []).append(v)
                for vid, vs in sorted(byid.items()):
                    vs.sort(key=lambda v: (not v.get("ok"), v.get("kind") != "strong"))
                    got_any = False
                    for v in vs[:r.get("replays", 40)]:
                        hit = None
                        if time.time() - t0 > budget_total + 60:
                            break
                        # no perturbation for the first pass over candidates
                        for d in perturbations(v["in"], rng, 0 if got_any else (24 if v is vs[0] else 2)):
                            f = "%s/in-%d.txt" % (work, rng.randrange(1 << 60))
                            write_inputs(f, d)
                            res = run_native(b["nat"], f, r, work, thorough, timeout=r.get("nat_timeout", 20))
                            tot["replays"] += 1
                            m = [x for x in res["fails"] if x.split(" ")[0] == vid or (vid.startswith("crash") and x.startswith("crash")) or (vid == "hang" and x == "hang")]
                            if m:
                                hit = (d, m[0])
                                break
                        if not hit:
                            continue
                        got_any = True
                        kf = match_known(known, r["name"], vid, hit[0])
                        if kf:
                            knowns.append(kf)
                            continue
                        rp = save_replay(a.prop, r, vid, hit, b["nat"], thorough)
                        violations.append((vid, rp, hit[1]))
                        break
                    if not got_any:
                        spurious.append("%s/%s" % (r["name"], vid))
                        if a.v:
                            print("unreproduced", json.dumps(vs[0])[:1500])
                # ---- vacuity and validation of the encoding
                if not vrec:
                    for w in r.get("reach", []):
                        if w not in reach:
                            problems.append("%s: witness %s not reached (vacuous)" % (r["name"], w))
                    if not any(c[1] for c in asserted.values()):
                        problems.append("%s: no obligation on a feasible path (vacuous)" % r["name"])
                pick = okp if len(okp) <= int(os.environ.get("SYM_VALIDATE", r.get("validate", 30))) else rng.sample(okp, int(os.environ.get("SYM_VALIDATE", r.get("validate", 30))))

                def val(x):
                    f = "%s/val-%d.txt" % (work, random.randrange(1 << 60))
                    write_inputs(f, x["in"])
                    return x, run_native(b["nat"], f, r, work, thorough, timeout=30)
                for x, res in bld.pool.map(val, pick):
                    tot["replays"] += 1
                    so, no = x.get("obs", []), res["obs"]
                    ok = len(so) <= len(no) or len(so) > 390
                    same_path = ok and [o[0] for o in so] == [o[0] for o in no[:len(so)]]
                    if same_path:
                        bad = None
                        for s_, n_ in zip(so, no):
                            if isinstance(s_[1], str) or s_[2] < 0:
                                continue
                            tol = s_[2] + 1e-9 * (1 + s_[3])
                            if abs(s_[1] - n_[1]) > tol * 1.5:
                                bad = (s_, n_)
                                break
                        if bad and (x.get("band") or abs(bad[0][1] - bad[1][1]) < 1e-7):
                            tot["boundary"] += 1   # the model sits where rounding decides a branch, or the two compilers round differently
                        elif bad:
                            tot["mism"] += 1
                            if a.v:
                                print("MISMATCH", r["name"], bad, x["in"])
                        else:
                            tot["validated"] += 1
                    elif a.v:
                        print("path differs natively", r["name"], x["in"], res["status"], len(so), len(no))
                if okp and len(samples) < 6:
                    samples.append(dict(run=r["name"], inputs=okp[len(okp) // 2]["in"]))
                st["asserted"] = {k: v[0] for k, v in sorted(asserted.items())}
                st["witnesses"] = sorted(reach)
                per_run.append(st)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work dir", work)
    if tot["validated"] == 0 and not violations and tot["paths"]:
        problems.append("no path could be validated against the native build")
    if tot["boundary"] > tot["validated"] and not violations:
        problems.append("%d paths disagree with the native build near a rounding boundary" % tot["boundary"])
    if tot["mism"]:
        problems.append("%d symbolic values disagree with the native build" % tot["mism"])
    for s in spurious:
        problems.append("counterexample for %s did not reproduce natively" % s)
    fn = demangle(sorted(fns))
    ev["coverage"] = {
        "states": tot["paths"], "transitions": tot["decisions"], "traces_validated_against_impl": tot["validated"],
        "samples": samples or [{"note": "no completed path"}],
        "explanation": "states = feasible symbolic paths explored, transitions = branch constraints on them; each obligation is 'path condition and not property', decided by the solver for all inputs of the path",
        "obligations": tot["obligations"], "discharged": tot["discharged"], "discharged_by_path_feasibility": tot["path_obl"],
        "obligations_in_exact_real_arithmetic_only": tot["ideal"], "branches_with_rounding_band": tot["band"],
        "undecided": tot["unknown"], "infeasible_paths": tot["infeasible"], "paths_outside_precondition": tot["assumed"],
        "solver_queries": tot["queries"], "linear_queries": tot["lin"], "nonlinear_queries": tot["nonlin"], "solver_seconds": round(tot["solver_s"], 2),
        "answers_by_solver": solver_by, "second_solver_agreed": tot["cross_agree"], "second_solver_timeout": tot["cross_timeout"],
        "native_replays": tot["replays"], "paths_on_a_rounding_boundary": tot["boundary"], "functions_encoded": fn, "functions_encoded_count": len(fn),
        "bounds": spec.get("bounds", []), "outside": spec.get("outside", []), "stubs": spec.get("stubs", []), "runs": per_run,
        "known_findings_seen": sorted(set(k["id"] for k in knowns)), "problems": problems, "build_seconds_cpu": round(bld.secs, 1)}
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = len(violations)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, a.prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(set((k["id"], k["what"]) for k in knowns)):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k[1]))
    for vid, rp, detail in violations:
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        print("  %s" % detail)
    print("%s %s: %d paths, %d/%d obligations discharged, %d queries (%.1fs solver), %d paths validated natively, %.1fs" % (
        a.prop, a.tier, tot["paths"], tot["discharged"], tot["obligations"], tot["queries"], tot["solver_s"], tot["validated"], time.time() - t0))
    if violations:
        sys.exit(1)
    if problems:
        for p in sorted(set(problems)):
            print("INCONCLUSIVE %s: %s" % (a.prop, p))
        sys.exit(2)
    sys.exit(0)


def match_known(known, run, vid, inp):
    for k in known:
        if k.get("status") == "fixed":
            continue
        if k["run"] == run and k["assertion"] == vid:
            cond = k.get("inputs")
            if cond is None or eval(cond, {"i": inp, "abs": abs, "get": inp.get}):
                return k
    return None


def save_replay(prop, run, vid, hit, nat, thorough):
    d = "%s/replays/%s" % (VERIF, prop)
    os.makedirs(d, exist_ok=True)
    base = "%s/%s-%s" % (d, run["name"], re.sub(r"[^A-Za-z0-9_.-]", "_", vid))
    write_inputs(base + ".in", hit[0])
    with open(base + ".txt", "w") as f:
        f.write("property %s, harness %s, assertion %s\n%s\nreplay: %s/check.py %s --run %s --replay %s.in\n" % (prop, run["harness"], vid, hit[1], VERIF, prop, run["name"], base))
    return base + ".in"


if __name__ == "__main__":
    main()
