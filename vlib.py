"""Machinery shared by the checks: build the drivers from /repo, run them on
configurations, hand the recorded behaviours to TLC, write evidence, decide."""
import fcntl, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


class Broken(Exception):
    """The machinery itself failed: exit 2, never a verdict."""


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d/%s" % (prop, seed, tier))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes, self.assumptions = [], [], [], []
        self.extra = {}
        self.actions = {}
        self.nrun = 0
        self.work = os.path.join(V, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        self.classes = os.path.join(self.work, "classes")

    # ------------------------------------------------------------- building
    def build(self, targets, surr=False):
        bdir = os.path.join(V, ".build-surr" if surr else ".build")
        os.makedirs(bdir, exist_ok=True)
        with open(os.path.join(bdir, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            rc, out = sh(["cmake", "-S", os.path.join(V, "harness"), "-B", bdir, "-G", "Ninja", "-DREPO=" + REPO,
                          "-DSURR=" + ("ON" if surr else "OFF"), "-DCMAKE_BUILD_TYPE=Release",
                          "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -w", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-Wno-dev",
                          "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"], timeout=300)
            if rc:
                raise Broken("cmake failed:\n" + out[-3000:])
            rc, out = sh(["ninja", "-C", bdir] + targets, timeout=800)
            if rc:
                raise Broken("build failed:\n" + out[-4000:])
        self.bdir = bdir

    # ------------------------------------------------------ running drivers
    def run(self, driver, confs, timeout=60, threads=1, wrap=None):
        """confs: list of dicts of driver keys.  Returns the list of run records
        (dict), each with the configuration under 'conf'."""
        for c in confs:
            self.nrun += 1
            c["run"] = self.nrun
        shards = [[] for _ in range(max(1, NCPU // threads))]
        for k, c in enumerate(confs):
            shards[k % len(shards)].append(c)
        jobs = []
        for k, sh_ in enumerate(shards):
            if sh_:
                base = os.path.join(self.work, "%s-%d-%d" % (driver, self.nrun, k))
                with open(base + ".cfg", "w") as f:
                    for c in sh_:
                        f.write(line(c) + "\n")
                jobs.append(base)

        def one(base):
            return sh((wrap or []) + [os.path.join(self.bdir, driver), base + ".cfg", base + ".out", str(timeout)],
                      timeout=1500, env={"OMP_NUM_THREADS": str(threads)}, cwd=self.work)
        with ThreadPoolExecutor(len(jobs)) as ex:
            res = list(ex.map(one, jobs))
        recs = {}
        for base, (rc, out) in zip(jobs, res):
            if rc:
                raise Broken("driver %s failed (rc=%d): %s" % (driver, rc, out[-2000:]))
            with open(base + ".out") as f:
                for l in f:
                    r = json.loads(l)
                    recs[r["run"]] = r
            os.unlink(base + ".out")
        outl = []
        for c in confs:
            if c["run"] not in recs:
                raise Broken("no record of run %s" % line(c))
            r = recs[c["run"]]
            r["conf"] = c
            outl.append(r)
        return outl

    def run_ok(self, driver, confs, timeout=60, threads=1):
        """As run(); a run that crashes or hangs twice is a violation and is left out."""
        recs = self.run(driver, confs, timeout, threads)
        good = []
        for r in recs:
            if "crash" in r:
                again = self.run(driver, [dict(r["conf"])], timeout * 3, threads)[0]
                if "crash" in again:
                    self.violation("the run crashed or did not end: %s" % again["crash"], driver, [r["conf"]])
                    continue
                r = again
            good.append(r)
        return good

    # ------------------------------------------------------------------ TLC
    def f64(self):
        if not os.path.isdir(self.classes):
            os.makedirs(self.classes)
            rc, out = sh(["javac", "-cp", CP, "-d", self.classes, os.path.join(V, "spec", "F64.java")])
            if rc:
                raise Broken("javac: " + out)

    def tlc(self, module, cfg=None, env=None, args=(), timeout=850, mem="10g", workers=NCPU):
        self.f64()
        meta = os.path.join(self.work, "meta-%s-%d" % (module, int(time.time() * 1e6)))
        # -Xss: recursive operators over long traces
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", self.classes + ":" + CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
               "-config", (cfg or module + ".cfg")] + list(args) + [module + ".tla"]
        e = {"PROP": self.prop}
        if env:
            e.update(env)
        rc, out = sh(cmd, timeout=timeout, env=e, cwd=os.path.join(V, "spec"))
        shutil.rmtree(meta, ignore_errors=True)
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        elif "-simulate" in args:
            m = None
            for m in re.finditer(r"Progress: (\d+) states checked", out):
                pass
            if m:
                self.transitions += int(m.group(1))
        if rc == 124:
            raise Broken("TLC timed out on %s" % module)
        if "OutOfMemoryError" in out or "StackOverflowError" in out:
            raise Broken("TLC ran out of memory on %s:\n%s" % (module, out[-1500:]))
        return rc, out

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of the specification itself."""
        rc, out = self.tlc(module, cfg, **kw)
        if rc:
            raise Broken("the specification %s does not satisfy its properties:\n%s" % (module, out[-4000:]))
        return out

    def validate(self, module, recs, driver="vrun", cfg=None, chunk=4000, env=None):
        """Check recorded runs against a trace specification.  recs: dicts with
        run, conf and whatever the module reads."""
        if not recs:
            raise Broken("nothing recorded for %s" % module)
        for k in range(0, len(recs), chunk):
            part = recs[k:k + chunk]
            bad = 0
            while part:
                path = os.path.join(self.work, "trace-%s.ndjson" % module)
                with open(path, "w") as f:
                    for r in part:
                        q = {a: b for a, b in r.items() if a not in ("conf", "confs")}
                        f.write(json.dumps(q, separators=(",", ":")) + "\n")
                ee = {"TRACE": path}
                if env:
                    ee.update(env)
                rc, out = self.tlc(module, cfg, env=ee)
                if rc == 0:
                    self.traces += len(part)
                    break
                rid = re.findall(r"(?m)^/\\ rid = (\d+)", out) or re.findall(r"(?m)rid = (\d+)", out)
                er = re.findall(r"(?ms)^/\\ errs = (.*?)(?=^/\\|\Z|^\s*$)", out)
                evi = re.findall(r"(?m)^/\\ i = (\d+)", out)
                if not rid or ("is violated" not in out and "Error" not in out):
                    raise Broken("TLC failed on %s (rc=%d):\n%s" % (module, rc, out[-3000:]))
                r = part[int(rid[-1]) - 1]
                if "is violated" in out:
                    what = "%s (event %s)" % (" ".join(er[-1].split()) if er else "invariant", evi[-1] if evi else "?")
                else:
                    ex = re.findall(r"(?m)^Error: (.*)$", out)
                    what = "the recorded behaviour cannot be evaluated: " + " / ".join(ex[:2])
                self.violation(what, driver, r.get("confs") or [r["conf"]], module)
                bad += 1
                part = [x for x in part if x is not r]
                if bad >= 2:
                    break

    # ------------------------------------------------ pairs of related executions
    def twin(self, pairs, delay=0, threads=(1, 1), driver="vrun", chunk=1500, limit=4000000):
        """pairs: (conf a, conf b, relation).  Both are executed (b in other processes, later),
        and TLC walks the two behaviours in lockstep."""
        a = self.run(driver, [dict(p[0]) for p in pairs], threads=threads[0])
        if delay:
            time.sleep(delay)
        b = self.run(driver, [dict(p[1]) for p in pairs], threads=threads[1])
        recs = []
        skipped = 0
        for k, (p, x, y) in enumerate(zip(pairs, a, b)):
            if "crash" in x or "crash" in y:
                x2 = self.run(driver, [dict(p[0])], 180, threads[0])[0]
                y2 = self.run(driver, [dict(p[1])], 180, threads[1])[0]
                if "crash" in x2 or "crash" in y2:
                    self.violation("the run crashed or did not end: %s / %s" % (x2.get("crash"), y2.get("crash")), driver, [p[0], p[1]])
                    continue
                x, y = x2, y2
            r = {"run": k + 1, "prop": self.prop, "rel": p[2], "conf": p[0], "confs": [p[0], p[1]],
                 "a": {q: v for q, v in x.items() if q in ("ev", "get", "par", "warm", "warm2")},
                 "b": {q: v for q, v in y.items() if q in ("ev", "get", "par", "warm", "warm2")}}
            if len(p) > 3:
                r["expect"] = p[3]
            recs.append(r)
        if recs:
            self.samples.append({"config": line(recs[0]["confs"][0]), "other": line(recs[0]["confs"][1]), "relation": recs[0]["rel"],
                                 "events": len(recs[0]["a"]["ev"]), "record": json.dumps(recs[0]["a"]["ev"])[:500]})
            self.validate("Twin", recs, driver, chunk=chunk)
        cnt = self.extra.setdefault("relations", {})
        for r in recs:
            cnt[r["rel"]] = cnt.get(r["rel"], 0) + 1
        return recs

    # ---------------------------------------- behaviours of the model, replayed
    def replay_model(self, sels, cap, deep=False, module="MCCma", extra=None):
        """Model-check MCCma exhaustively for each configuration family and replay its
        behaviours (objective values, abort) into the real code: what the real run reports
        must be one of the behaviours the specification allows for those inputs."""
        for sel in sels:
            rc, out = self.tlc(module, env={"GEN": "1", "SEL": sel, "DEEP": "1" if deep else "0"})
            if rc:
                raise Broken("the specification %s violates its own invariants:\n%s" % (module, out[-3000:]))
            groups = {}
            for l in out.splitlines():
                if l.startswith('"BEH '):
                    b = json.loads(json.loads(l)[4:])
                    key = json.dumps([b["cfg"], b["script"], b["abort"]], sort_keys=True)
                    groups.setdefault(key, []).append(b)
            keys = sorted(groups)
            if not keys:
                raise Broken("no behaviours generated for " + sel)
            total = len(keys)
            if len(keys) > cap:
                keys = self.rng.sample(keys, cap)
            confs = []
            for k in keys:
                b = groups[k][0]
                c = b["cfg"]
                script = []
                for block in b["script"]:
                    block = list(block)
                    self.rng.shuffle(block)
                    script += block
                conf = {"x0": [1.0] * c["dim"], "sigma": 0.5, "lambda": c["lambda"], "seed": self.rng.randint(1, 9999),
                        "algo": {"single": 0, "ipop": 1, "bipop": 2}[c["strat"]] + self.rng.choice([0, 3, 6, 9]),
                        "elitism": c["elit"], "inifv": int(c["inifv"]), "maxiter": c["maxiter"], "restarts": c["restarts"],
                        "edm": int(c["edm"]), "obj": "script", "script": script or [0], "cyc": 0,
                        "crit": ["%s:%d" % (q, v) for q, v in sorted(c["crit"].items())]}
                if c["maxfevals"] > 0:
                    conf["maxfevals"] = c["maxfevals"]
                if c["ftarget"] != "-Infinity":
                    conf["ftarget"] = float(c["ftarget"])
                if c["maxhist"] > 0:
                    conf["maxhist"] = c["maxhist"]
                if c["ftol"] != "1e-12":
                    conf["ftol"] = float(c["ftol"])
                if b["abort"]:
                    conf["userstop"] = b["abort"]
                if extra:
                    conf.update(extra)
                conf["_key"] = k
                confs.append(conf)
            recs = self.run_ok("vrun", confs)
            nbad = 0
            for r in recs:
                reps = [e for e in r["ev"] if e["e"] == "rep"]
                end = r["ev"][-1]
                obs = [[e["niter"], e["fevals"], fnum(e["best"]["f"]), fnum(e["bseen"]["f"]), fnum(e["wseen"]["f"]), e["lambda"]] for e in reps]
                ores = [end["niter"], end["fevals"], fnum(end["best"]["f"])]
                ok = False
                for b in groups[r["conf"]["_key"]]:
                    exp = [[x[0], x[1], fnum(x[2]), fnum(x[3]), fnum(x[4]), x[5]] for x in b["log"]]
                    res = [b["res"][0], b["res"][1], fnum(b["res"][2])]
                    if obs == exp and ores == res and end["total"] == b["calls"] and \
                       (b["cfg"]["strat"] != "single" or end["status"] == b["status"]):
                        ok = True
                if ok:
                    self.traces += 1
                else:
                    b = groups[r["conf"]["_key"]][0]
                    self.violation("replayed behaviour differs: reports (iteration, evaluations, best, best seen, worst seen, population)"
                                   " %s result %s status %s calls %s; the specification gives %s result %s status %s calls %s" % (
                                       obs, ores, end["status"], end["total"], b["log"], b["res"], b["status"], b["calls"]), "vrun", [r["conf"]], module)
                    nbad += 1
                    if nbad >= 2:
                        break
            self.extra.setdefault("behaviours", {})[sel] = {"generated": total, "replayed": len(recs)}

    # ------------------------------------------------------------- verdict
    def violation(self, what, driver, confs, module=None):
        n = len(self.violations) + 1
        path = os.path.join("replays", "%s-%d.json" % (self.prop, n))
        with open(os.path.join(V, path), "w") as f:
            json.dump({"property": self.prop, "driver": driver, "module": module, "what": what,
                       "configs": [line(c) for c in confs], "seed": self.seed, "tier": self.tier}, f, indent=1)
        self.violations.append((path, what))
        print("violation: %s\n   %s %s" % (what, driver, "\n      ".join(line(c) for c in confs)))
        sys.stdout.flush()

    def sample(self, rec, maxlen=700):
        if len(self.samples) < 3:
            self.samples.append({"config": line(rec["conf"]), "events": len(rec.get("ev", [])) or None,
                                 "record": json.dumps({a: b for a, b in rec.items() if a not in ("conf", "cfg")})[:maxlen]})

    def finish(self, level):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces, "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for path, what in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if not self.violations:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def line(c):
    return " ".join("%s=%s" % (k, num(v)) for k, v in c.items() if v is not None and not k.startswith("_"))


def num(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, float):
        return "inf" if v == float("inf") else "-inf" if v == float("-inf") else repr(v)
    if isinstance(v, (list, tuple)):
        return ",".join(num(x) for x in v)
    return str(v)


def jd(x):
    """a double as the specification reads it"""
    x = float(x)
    if x != x:
        return "NaN"
    if x in (float("inf"), float("-inf")):
        return "Infinity" if x > 0 else "-Infinity"
    return repr(x)


def fnum(x):
    x = float(x)
    return "NaN" if x != x else x


STR_ALGO = ["cmaes", "ipop", "bipop", "acmaes", "aipop", "abipop", "sepcmaes", "sepipop", "sepbipop", "sepacmaes",
            "sepaipop", "sepabipop", "vdcma", "vdipopcma", "vdbipopcma"]
CODES = [-15, -13] + list(range(1, 11))


def spec_cfg(conf, rec):
    """The configuration as the specification sees it."""
    algo = conf.get("algo", STR_ALGO.index(conf["stralgo"]) if "stralgo" in conf else 0)
    crit = {str(k): True for k in CODES}
    for t in conf.get("crit", []):
        k, b = t.split(":")
        crit[k] = b == "1"
    dim = len(conf["x0"])
    sigma0 = conf.get("sigma", 0.5)
    if sigma0 <= 0:
        sigma0 = 1.0 / dim
    fixed = {}
    for t in conf.get("fixed", []):
        k, v = t.split(":")
        fixed[int(k)] = float(v)
    for k in conf.get("unfix", []):
        fixed.pop(int(k), None)
    warm = {"warm": {k: rec["warm"][k] for k in ("bseen", "wseen", "sigma")}} if "warm" in rec else {}
    return {
        **warm,
        "dim": dim, "lambda": rec.get("lambda0", 0), "elit": conf.get("elitism", 0), "inifv": bool(conf.get("inifv", 0)),
        "maxiter": conf.get("maxiter", -1), "maxfevals": conf.get("maxfevals", -1),
        "ftarget": jd(conf.get("ftarget", float("-inf"))), "ftol": jd(conf.get("ftol", 1e-12)),
        "xtol": jd(conf.get("xtol", 1e-12)), "maxhist": conf.get("maxhist", -1), "uh": bool(conf.get("uh", 0)),
        "grad": conf.get("grad", 0), "edm": bool(conf.get("edm", 0)), "mt": bool(conf.get("mt", 0)),
        "strat": ["single", "ipop", "bipop"][algo % 3], "restarts": conf.get("restarts", 9),
        "upd": ["cma", "acma", "cma", "acma", "vd"][algo // 3], "algo": algo,
        "sep": 6 <= algo <= 11, "vd": algo >= 12, "crit": crit, "maximize": bool(conf.get("maximize", 0)),
        "sigma0": jd(sigma0), "tpa": conf.get("tpa", 1), "lazy": bool(conf.get("lazy", 0)),
        "noisy": bool(conf.get("noisy", 0)), "gp": conf.get("gp", "none"),
        "x0": [jd(v) for v in conf["x0"]], "lb": [jd(v) for v in conf.get("lb", [])],
        "ub": [jd(v) for v in conf.get("ub", [])], "scaling": [jd(v) for v in conf.get("scaling", [])],
        "shift": [jd(v) for v in conf.get("shift", [])], "tf": conf.get("tf", ""),
        "plotfn": bool(conf.get("plotfn") and conf.get("fplot")), "ext": conf.get("entry") == "ext", "full": bool(conf.get("fullfplot")), "seed": conf.get("setseed", conf.get("seed", 1)),
        "fixed": [[k, jd(v)] for k, v in sorted(fixed.items())], "nfixed": len(fixed),
        "x0max": [jd(v) for v in conf.get("x0max", [])], "vsigma": [jd(v) for v in conf.get("vsigma", [])],
        "lambda0": conf.get("lambda", -1),
    }


def with_cfg(recs):
    for r in recs:
        r["cfg"] = spec_cfg(r["conf"], r)
    return recs
