"""What each property's check does."""
import gen
from vlib import with_cfg, Broken, jd

PLANS = {}
TECH = {}


def plan(p):
    def deco(f):
        PLANS[p] = f
        return f
    return deco


def n(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


def cma_traces(ctx, confs, module="CmaTrace"):
    recs = with_cfg(ctx.run_ok("vrun", confs))
    for r in recs[:2]:
        ctx.sample(r)
    ctx.validate(module, recs)
    return recs


# ------------------------------------------------------------------ life cycle
LIFE = ["single", "elit", "budget", "crit", "abort", "ipop", "bipop"]


def life(ctx, confs, sels, cap=1500, deepcap=20000):
    """exhaustive model + replay of its behaviours + validation of recorded runs"""
    ctx.build(["vrun"])
    ctx.model("MCCma", "MCCmaLive.cfg", env={"GEN": "0", "DEEP": "1" if ctx.thorough else "0"})
    ctx.replay_model(sels, n(ctx, cap, deepcap), deep=ctx.thorough)
    return cma_traces(ctx, confs)


@plan("C01")
def c01(ctx):
    k = n(ctx, 300, 4000)
    life(ctx, [gen.lifecycle(ctx.rng) for _ in range(k)] + [gen.restarts(ctx.rng) for _ in range(k // 4)], LIFE, 300)


@plan("C02")
def c02(ctx):
    k = n(ctx, 300, 4000)
    life(ctx, [gen.budget(ctx.rng) for _ in range(k)] + [gen.restarts(ctx.rng, budget=True) for _ in range(k // 4)], ["budget", "ipop"], 1500)


@plan("C03")
def c03(ctx):
    k = n(ctx, 350, 4000)
    auto = [gen.autoiter(ctx.rng, 10, 12, 2700), gen.autoiter(ctx.rng, 7, 80, 700), gen.autoiter(ctx.rng, 5, 100, 600, False)]
    life(ctx, [gen.stopping(ctx.rng) for _ in range(k)] + [gen.evenvalues(ctx.rng) for _ in range(k // 4)] + auto, ["crit", "budget"], 1000)


@plan("C04")
def c04(ctx):
    k = n(ctx, 300, 4000)
    life(ctx, [gen.lifecycle(ctx.rng, algos=(0, 3, 6, 9, 12)) for _ in range(k)] + [gen.restarts(ctx.rng) for _ in range(k // 6)], ["single", "elit", "ipop"], 800)


@plan("C05")
def c05(ctx):
    k = n(ctx, 160, 2500)
    life(ctx, [gen.restarts(ctx.rng, kinds=(1,)) for _ in range(k)], ["ipop", "abort"], 1500)


@plan("C06")
def c06(ctx):
    k = n(ctx, 160, 2500)
    life(ctx, [gen.restarts(ctx.rng, kinds=(2,)) for _ in range(k)], ["bipop", "abort"], 1000)


@plan("C07")
def c07(ctx):
    k = n(ctx, 250, 4000)
    life(ctx, [gen.elitist(ctx.rng) for _ in range(k)], ["elit", "single"], 2500)


@plan("C17")
def c17(ctx):
    k = n(ctx, 200, 3000)
    life(ctx, [gen.reports(ctx.rng) for _ in range(k)] + [gen.restarts(ctx.rng, abort=True) for _ in range(k // 3)], ["abort", "single"], 1500)


@plan("C27")
def c27(ctx):
    ctx.build(["vrun"])
    recs = cma_traces(ctx, [gen.datafile(ctx.rng) for _ in range(n(ctx, 400, 5000))], "FpTrace")
    ctx.extra["lines"] = sum(len(r["file"]) for r in recs)


# ---------------------------------------------------------------------- points
def pt_traces(ctx, confs):
    return cma_traces(ctx, confs, "PtTrace")


def restartx(ctx, f):
    c = f(ctx.rng, algos=(1, 2, 4, 5, 7, 8, 10, 11))
    c["restarts"] = ctx.rng.choice([1, 2, 3])
    c["maxiter"] = ctx.rng.choice([1, 2, 4])
    c["lambda"] = ctx.rng.choice([4, 5])
    return c


@plan("C08")
def c08(ctx):
    ctx.build(["vrun"])
    k = n(ctx, 260, 3000)
    pt_traces(ctx, [gen.bounded(ctx.rng) for _ in range(k)] + [restartx(ctx, gen.bounded) for _ in range(k // 5)])


@plan("C09")
def c09(ctx):
    ctx.build(["vrun"])
    k = n(ctx, 240, 3000)
    pt_traces(ctx, [gen.points(ctx.rng) for _ in range(k)] + [restartx(ctx, gen.points) for _ in range(k // 5)])


@plan("C10")
def c10(ctx):
    ctx.build(["vrun"])
    k = n(ctx, 240, 3000)
    pt_traces(ctx, [gen.fixedp(ctx.rng) for _ in range(k)] + [restartx(ctx, gen.fixedp) for _ in range(k // 5)])


# --------------------------------------------------- relations between executions
@plan("C12")
def c12(ctx):
    ctx.build(["vrun"])
    k = n(ctx, 260, 2500)
    ctx.twin([gen.repro(ctx.rng) for _ in range(k)] + [gen.otherseed(ctx.rng) for _ in range(k // 5)], delay=1.2)


@plan("C13")
def c13(ctx):
    ctx.build(["vrun"])
    ctx.twin([gen.negated(ctx.rng) for _ in range(n(ctx, 260, 3000))])


@plan("C22")
def c22(ctx):
    ctx.build(["vrun"])
    ctx.twin([gen.monotone(ctx.rng) for _ in range(n(ctx, 300, 3000))])


@plan("C11")
def c11(ctx):
    """every completion order of the model, forced upon the real code"""
    ctx.build(["vrun"])
    import json, re
    total = 0
    for N, T in [(4, 4), (4, 2), (5, 3), (6, 3), (5, 5)] + ([(6, 6), (8, 4), (7, 4)] if ctx.thorough else [(6, 6)]):
        out = ctx.model("ParEval", env={"PN": str(N), "PT": str(T), "GEN": "1"})
        orders = sorted({tuple(x - 1 for x in json.loads(json.loads(l)[4:])) for l in out.splitlines() if l.startswith('"ORD ')})
        if not orders:
            raise Broken("no completion orders")
        total += len(orders)
        per = 4
        k = min((len(orders) + per - 1) // per, n(ctx, 12, 120))
        ctx.rng.shuffle(orders)
        pairs = []
        for j in range(k):
            part = [orders[(j * per + q) % len(orders)] for q in range(per)]
            c = gen.parallel(ctx.rng, N)
            c["gate"] = "/".join(".".join(map(str, o)) for o in part)
            d = dict(c)
            d.pop("gate")
            d["mt"] = 0
            pairs.append((c, d, "par"))
        recs = ctx.twin(pairs, threads=(T, T))
        e = ctx.extra.setdefault("parallel", {})
        e["%d candidates, %d threads" % (N, T)] = {"orders": len(orders), "runs": len(recs),
                                                   "max evaluations in flight": max([r["a"]["par"]["inflight"] for r in recs] or [0]),
                                                   "evaluations out of turn": sum(r["a"]["par"]["late"] for r in recs)}
    # ungated: bursts with different durations, more candidates than threads, restarts, numerical gradients
    pairs = []
    for _ in range(n(ctx, 40, 500)):
        c = gen.parallel(ctx.rng, ctx.rng.choice([2, 5, 9, 16, 24]), True)
        d = dict(c)
        d["mt"] = 0
        d.pop("spin", None)
        pairs.append((c, d, "par"))
    ctx.twin(pairs, threads=(4, 4))


@plan("C18")
def c18(ctx):
    ctx.build(["vrun"])
    import json
    progs = []
    def programs(L, focus, args):
        rc, out = ctx.tlc("Settings", env={"LEN": str(L), "FOCUS": focus}, args=args, workers=1)
        if rc:
            raise Broken("Settings: " + out[-2000:])
        return sorted({json.dumps(json.loads(json.loads(l)[4:]), sort_keys=True) for l in out.splitlines() if l.startswith('"PRG ')})

    every = programs(2, "one", [])       # every pair of values of every setting
    for L, num, focus in [(3, n(ctx, 60, 400), "all"), (9, n(ctx, 100, 800), "all"), (20, n(ctx, 100, 1200), "all"), (5, n(ctx, 150, 1500), "mix"), (8, n(ctx, 100, 1500), "mix")]:
        progs += programs(L, focus, ["-simulate", "num=%d" % num, "-depth", str(L + 1), "-seed", str(ctx.seed * 1000 + L)])
    uniq = sorted(set(progs) - set(every))
    ctx.extra["programs"] = {"generated": len(uniq) + len(every), "pairs of values": len(every)}
    progs = [json.loads(q) for q in every + ctx.rng.sample(uniq, min(len(uniq), n(ctx, 360, 4000)))]
    pairs = []
    for q in progs:
        t = gen.program(ctx.rng, q)
        if t:
            pairs.append(t)
    for _ in range(n(ctx, 60, 600)):
        pairs.append(gen.name_code(ctx.rng))
        pairs.append(gen.entries(ctx.rng))
    recs = ctx.twin(pairs)
    # and the programs' runs are those the specification gives for their meaning
    one = []
    for r in recs:
        if r["rel"] == "same" and r["confs"][0].get("_meaning"):
            one.append({"run": r["run"], "conf": r["confs"][0], "cfg": r["confs"][0]["_meaning"], "ev": r["a"]["ev"]})
    for o in one:
        o["cfg"]["lambda"] = [e for e in o["ev"] if e["e"] == "rep"][0]["size"] if o["ev"][0]["e"] == "rep" else 0
    ctx.validate("CmaTrace", one, env={"PROP": "ALL"})


# ------------------------------------------------------- the search distribution
def cov_traces(ctx, confs):
    return cma_traces(ctx, confs, "CovTrace")


def covmodel(ctx, parts=("consts", "updates")):
    for q in parts:
        ctx.model("MCCov", env={"PART": q, "DEEP": "1" if ctx.thorough else "0"})


@plan("C14")
def c14(ctx):
    ctx.build(["vrun"])
    cov_traces(ctx, [gen.uncertain(ctx.rng) for _ in range(n(ctx, 300, 3000))])


@plan("C19")
def c19(ctx):
    ctx.build(["vrun"])
    cov_traces(ctx, [gen.injected(ctx.rng) for _ in range(n(ctx, 320, 3000))] + [gen.unmoved(ctx.rng) for _ in range(n(ctx, 16, 150))])


@plan("C20")
def c20(ctx):
    ctx.build(["vrun"])
    covmodel(ctx)
    k = n(ctx, 260, 3000)
    cov_traces(ctx, [gen.distribution(ctx.rng) for _ in range(k)] + [gen.injected(ctx.rng) for _ in range(k // 8)]
               + [gen.uncertain(ctx.rng) for _ in range(k // 8)])


@plan("C21")
def c21(ctx):
    ctx.build(["vrun"])
    covmodel(ctx, ("updates",))
    k = n(ctx, 160, 2000)
    cov_traces(ctx, [gen.distribution(ctx.rng) for _ in range(k)] + [gen.longrun(ctx.rng) for _ in range(k // 4)]
               + [gen.injected(ctx.rng) for _ in range(k // 8)])


@plan("C24")
def c24(ctx):
    ctx.build(["vrun"])
    cov_traces(ctx, [gen.sampled(ctx.rng) for _ in range(n(ctx, 320, 3000))])


# ------------------------------------------------------- starting from a solution
@plan("C23")
def c23(ctx):
    ctx.build(["vrun"])
    k = n(ctx, 260, 3000)
    recs = cma_traces(ctx, [gen.warm(ctx.rng) for _ in range(k)], "WarmTrace")
    # the second run is a run like any other
    ctx.validate("CmaTrace", recs, env={"PROP": "ALL"})
    recs = with_cfg(ctx.run_ok("vrun", [gen.warm(ctx.rng, gen.distribution) for _ in range(k // 3)]))
    ctx.validate("WarmTrace", recs)
    ctx.validate("CovTrace", recs, env={"PROP": "ALL"})
    ctx.twin([gen.warmpair(ctx.rng) for _ in range(k // 3)])


# ------------------------------------------------------------------ starting afresh
@plan("C29")
def c29(ctx):
    ctx.build(["vrun"])
    cma_traces(ctx, [gen.start(ctx.rng) for _ in range(n(ctx, 500, 6000))], "StartTrace")


# ------------------------------------------------- transforms, and their reduction
def gp_record(r):
    """the driver's record as the items of GpTrace"""
    c = r["conf"]

    def nums(k):
        v = c.get(k, [])
        return [jd(q) for q in v]
    q = {"run": r["run"], "conf": c, "cfg": {"gp": c.get("gp", "none"), "tf": c.get("tf", ""), "lb": nums("lb"), "ub": nums("ub"),
                                             "scaling": nums("scaling"), "shift": nums("shift"), "x0": nums("x0")}}
    it = []

    def part(s, rem):
        for x in s["x"]:
            it.append(dict(x, op="x", rem=rem))
        for y in s["y"]:
            it.append(dict(y, op="y", rem=rem))
        if s["bnd"]:
            it.append({"op": "bnd", "b": s["bnd"], "rem": rem})
    op = c["op"]
    if op == "gp":
        part(r, [])
        if "red" in r:
            part(r["red"], c["remove"])
            it.append({"op": "same", "ok": r["same"], "rem": []})
    elif op == "vec":
        st = r["steps"]
        for k, a in enumerate(c["prog"]):
            kk, _, val = a[1:].partition(":")
            it.append({"op": "vec", "rem": [], "act": a[0], "k": int(kk), "val": val, "v0": st[k]["v"], "m0": st[k]["m"], "v": st[k + 1]["v"], "m": st[k + 1]["m"]})
    elif op == "fix":
        it.append({"op": "fix", "rem": [], "ks": c["remove"], **{k: r[k] for k in ("before", "after", "dim", "x0min", "x0max", "r1", "r2")}})
    else:
        it.append({"op": "vpk", "rem": [], "ks": c["k"], "vk": [jd(v) for v in c["vk"]], "pheno": bool(c["pheno"]),
                   **{k: r[k] for k in ("best", "pbest", "fevals", "calls")}})
    q["items"] = it
    return q


def gp_traces(ctx, confs):
    recs = [gp_record(r) for r in ctx.run_ok("vgp", confs)]
    for r in recs[:2]:
        ctx.sample(r)
    ctx.validate("GpTrace", recs, "vgp")


def geno_model(ctx):
    """the grid of the model, checked there and then given to the real transforms"""
    import json
    out = ctx.model("MCGeno", env={"GEN": "1", "DEEP": "1" if ctx.thorough else "0"})
    by = {}
    for l in out.splitlines():
        if l.startswith('"PT '):
            p = json.loads(json.loads(l)[3:])
            by.setdefault(json.dumps(p["t"], sort_keys=True), []).append((p["x"], p["y"]))
    if not by:
        raise Broken("no points generated")
    confs = []
    for key, pts in sorted(by.items()):
        t = json.loads(key)
        pts = sorted(set(pts))
        m = n(ctx, 60, 1000)
        if len(pts) > m:
            pts = ctx.rng.sample(pts, m)
        # several of them side by side: dimensions do not mix
        dim = ctx.rng.choice([1, 2, 3])
        while len(pts) % dim:
            pts.append(pts[0])
        for k in range(0, len(pts), 40 * dim):
            chunk = pts[k:k + 40 * dim]
            c = {"op": "gp", "gp": t["gp"]}
            for a in ("lb", "ub", "scaling", "shift"):
                if t[a]:
                    c[a] = [float(t[a][0])] * dim
            if t["tf"]:
                c["tf"] = t["tf"]
            c["xs"] = "/".join(",".join(q[0] for q in chunk[j:j + dim]) for j in range(0, len(chunk), dim))
            ys = [(q[1] if not t["lb"] or t["gp"] == "lin" else repr(min(max(float(q[1]), float(t["lb"][0])), float(t["ub"][0])))) for q in chunk]
            c["ys"] = "/".join(",".join(ys[j:j + dim]) for j in range(0, len(chunk), dim))
            confs.append(c)
    ctx.extra["transforms of the model"] = len(by)
    return confs


@plan("C25")
def c25(ctx):
    ctx.build(["vgp"])
    confs = geno_model(ctx)
    k = n(ctx, 500, 6000)
    gp_traces(ctx, confs + [gen.transform(ctx.rng) for _ in range(k)] + [gen.transform(ctx.rng, big=True) for _ in range(k // 60)])


@plan("C26")
def c26(ctx):
    ctx.build(["vgp"])
    import json
    progs = []
    for dim, ln in ((3, 3), (4, 2), (5, 2)) if not ctx.thorough else ((3, 4), (4, 3), (6, 2)):
        out = ctx.model("MCDim", env={"DIM": str(dim), "LEN": str(ln)})
        progs += sorted({l for l in out.splitlines() if l.startswith('"DIM ')})
    ctx.extra["histories"] = {"generated": len(progs)}
    progs = [json.loads(json.loads(l)[4:]) for l in ctx.rng.sample(progs, min(len(progs), n(ctx, 1500, 20000)))]
    confs = []
    for p in progs:
        confs.append({"op": "vec", "x0": [float(q + 1) for q in range(p["n"])],
                      "prog": [a + (str(k) if a != "a" else "%d:%d" % (k, 100 + j)) for j, (a, k) in enumerate(p["prog"])]})
    k = n(ctx, 200, 2500)
    gp_traces(ctx, confs + [gen.transform(ctx.rng, remove=True) for _ in range(k)] + [gen.reduction(ctx.rng) for _ in range(k // 2)]
              + [gen.held(ctx.rng) for _ in range(k)])


# ------------------------------------------------------------ profile likelihood
def level_cfg(c, **more):
    d = {"gp": c.get("gp", "none"), "tf": c.get("tf", ""), "dim": len(c["x0"]), "obj": c["obj"], "fup": jd(c["fup"]), "plmax": c["plmax"], "check": "maxiter" not in c,
         "offset": jd(float(c.get("foffset", 0.0)) * (-1 if c.get("maximize") else 1))}
    for k in ("lb", "ub", "scaling", "shift"):
        d[k] = [jd(v) for v in c.get(k, [])]
    d.update(more)
    return d


@plan("C15")
def c15(ctx):
    ctx.build(["vpl"])
    confs = [gen.profile(ctx.rng) for _ in range(n(ctx, 1200, 12000))]
    recs = ctx.run_ok("vpl", confs)
    for r in recs:
        c = r["conf"]
        r["cfg"] = level_cfg(c, ks=c["k"], n=c["n"], curve=bool(c["curve"]))
    for r in recs[:2]:
        ctx.sample(r)
    ctx.validate("PlTrace", recs, "vpl")


@plan("C28")
def c28(ctx):
    ctx.build(["vpl"])
    recs = ctx.run_ok("vpl", [gen.contour(ctx.rng) for _ in range(n(ctx, 900, 9000))])
    for r in recs:
        c = r["conf"]
        r["cfg"] = level_cfg(c, px=c["contour"][0], py=c["contour"][1], np=c["np"])
    for r in recs[:2]:
        ctx.sample(r)
    ctx.validate("CtTrace", recs, "vpl")


# --------------------------------------------------------------------- surrogates
def surr_cfg(r):
    c = r["conf"]
    off = [t for t in c.get("crit", []) if t == "10:0"]
    q = {"kind": c["surr"], "gp": c.get("gp", "none"), "tf": c.get("tf", ""), "dim": len(c["x0"]), "sep": 6 <= c["algo"] <= 11, "vd": c["algo"] >= 12,
         "single": c["algo"] % 3 == 0, "maximize": bool(c.get("maximize")), "auto": c.get("nsteps", 1) < 0,
         "ftarget": jd(c.get("ftarget", float("-inf"))), "target": not off}
    for k in ("lb", "ub", "scaling", "shift"):
        q[k] = [jd(v) for v in c.get(k, [])]
    if "_expect" in c:
        q["expect"] = c["_expect"]
    return q


@plan("C16")
def c16(ctx):
    import json
    ctx.build(["vsurr"], surr=True)
    ctx.model("MCSurr", env={"DEEP": "1" if ctx.thorough else "0"})
    out = ctx.model("MCSurr", env={"GEN": "1", "DEEP": "1" if ctx.thorough else "0"})
    hs = sorted({l for l in out.splitlines() if l.startswith('"SURR ')})
    if not hs:
        raise Broken("no histories generated")
    ctx.extra["histories"] = {"generated": len(hs)}
    confs = []
    for l in ctx.rng.sample(hs, min(len(hs), n(ctx, 500, 4000))):
        h = json.loads(json.loads(l)[5:])
        c = {"surr": h["kind"], "x0": [1.0, -0.5], "sigma": .5, "lambda": h["lambda"], "seed": ctx.rng.randint(1, 9999), "algo": ctx.rng.choice([0, 3, 6, 9, 12]),
             "obj": ctx.rng.choice(["sphere", "elli", "rastrigin"]), "model": ctx.rng.choice(["good", "bad", "noise", "const"]), "l": h["l"],
             "maxiter": len(h["hist"]), "xs": "".join("1" if q["x"] else "0" for q in h["hist"]), "crit": ["%d:0" % k for k in (-15, -13, 1, 2, 3, 4, 5, 6, 7)],
             "_expect": [q["n"] for q in h["hist"]]}
        if h["kind"] == "simple":
            c["nsteps"] = h["nsteps"]
        else:
            c["lprime"] = h["lprime"]
            c["prelambda"] = 3 * h["lambda"]
        confs.append(c)
    confs += [gen.surrogate(ctx.rng) for _ in range(n(ctx, 700, 8000))]
    recs = ctx.run_ok("vsurr", confs)
    for r in recs:
        r["cfg"] = surr_cfg(r)
    for r in recs[:2]:
        ctx.sample(r)
    ctx.validate("SurrTrace", recs, "vsurr")
