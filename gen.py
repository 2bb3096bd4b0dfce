"""Generators of driver configurations."""


def x0(rng, dim, span=4.0):
    return [round(rng.uniform(-span, span), 3) for _ in range(dim)]


OBJ = ["sphere", "elli", "rosen", "linear", "step", "hash", "rastrigin", "tilt", "const", "script"]


def objective(rng, c, kinds=None):
    k = rng.choice(kinds or OBJ)
    c["obj"] = k
    if k == "step":
        c["quant"] = rng.choice([0.5, 1.0, 2.0])
    if k == "hash":
        c["quant"] = rng.choice([1, 3, 10])
        c["mod"] = rng.choice([2, 3, 5, 9])
    if k == "script":
        n = rng.randint(3, 40)
        vals = [rng.randint(-3, 6) for _ in range(n)]
        c["script"] = vals
        c["cyc"] = rng.choice([0, 1, 1])
    return c


def bounds(rng, c, dim, gp=None):
    gp = gp or rng.choice(["pwq", "pwqlin"])
    c["gp"] = gp
    lb = [round(rng.uniform(-5, 1), 2) for _ in range(dim)]
    ub = [round(l + rng.choice([0.01, 0.5, 1, 3, 10, 200]), 4) for l in lb]
    c["lb"], c["ub"] = lb, ub
    c["x0"] = [round(rng.uniform(l, u), 4) for l, u in zip(lb, ub)]
    return c


def base(rng, dims=(1, 2, 3, 4, 6), maxiter=(1, 2, 3, 5, 8, 15, 30, 60), algos=(0, 3, 6, 9)):
    dim = rng.choice(dims)
    c = {"x0": x0(rng, dim), "sigma": rng.choice([0.1, 0.5, 1.0, 2.5, -1]), "seed": rng.randint(1, 10**6),
         "lambda": rng.choice([-1, -1, 2, 3, 4, 5, 7, 8, 12, 16])}
    if algos:
        c["algo"] = rng.choice(algos)
        if c["algo"] >= 12 and dim < 6:       # the VD variant needs some dimensions
            c["x0"] = x0(rng, rng.choice([6, 7, 9]))
    c["maxiter"] = rng.choice(maxiter)
    return objective(rng, c)


def lifecycle(rng, **kw):
    """any mix of the options that do not change what an iteration means"""
    c = base(rng, **kw)
    if rng.random() < .45:
        c["elitism"] = rng.choice([1, 1, 2, 3, 3])
    if c.get("elitism") == 3 and c["obj"] == "script":
        c["cyc"] = 0          # re-optimization of an objective that never settles does not end
    if rng.random() < .2:
        c["inifv"] = 1
    if rng.random() < .3:
        c["maxfevals"] = rng.choice([1, 5, 20, 50, 100, 300, 1000])
        if rng.random() < .5:
            c.pop("maxiter")
            c["maxiter"] = 400
    if rng.random() < .2:
        c["ftarget"] = rng.choice([0.0, 1.0, 1e-3, 1e-8, 5.0, -2.0])
    if rng.random() < .2:
        c["maxhist"] = rng.choice([1, 2, 3, 5, 12, 30])
    if rng.random() < .15:
        c["ftol"] = rng.choice([1e-3, 1.0, 1e-8])
    if rng.random() < .15:
        c["grad"] = rng.choice([1, 1, 2])
        if c["grad"] == 2:
            c["obj"] = rng.choice(["sphere", "elli"])
    if rng.random() < .15:
        c["edm"] = 1
    if rng.random() < .12 and not c.get("elitism"):
        c["maximize"] = 1
    if rng.random() < .1:
        c["userstop"] = rng.choice([1, 2, 3, 7])
    if rng.random() < .12 and c.get("elitism") != 3:    # with UH the re-optimization rule may hold for ever
        c["uh"] = 1
    if rng.random() < .1 and not c.get("elitism"):
        c["tpa"] = 2
        if c["lambda"] < 4:
            c["lambda"] = 6
    if rng.random() < .1:
        c["noisy"] = 1
    if rng.random() < .1:
        c["lazy"] = 1
    if rng.random() < .15:
        bounds(rng, c, len(c["x0"]))
    if rng.random() < .3:
        off = rng.sample([-15, -13] + list(range(1, 11)), rng.randint(1, 6))
        c["crit"] = ["%d:0" % k for k in off if not (k == 9 and "maxfevals" not in c)]
        if not c["crit"]:
            c.pop("crit")
        elif "9:0" in c["crit"] and "8:0" in c["crit"]:
            c["crit"].remove("9:0")
    if rng.random() < .06 and c["algo"] % 3 == 0 and not c.get("elitism") and not c.get("inifv") and not c.get("edm"):
        c["entry"] = "ext"        # the user's own ask / eval / tell loop
    if rng.random() < .07 and not c.get("grad") and not c.get("edm"):
        c["infat"] = sorted(rng.sample(range(1, 120), rng.choice([1, 5, 40, 100])))     # infeasible here and there
    if rng.random() < .03:
        c["lambda"] = rng.choice([40, 100, 130])
        c["maxiter"] = min(c["maxiter"], 8)
    return c


RESTART_ALGOS = {1: [1, 4, 7, 10, 13], 2: [2, 5, 8, 11, 14]}


def restarts(rng, kinds=(1, 2), budget=False, abort=False):
    kind = rng.choice(kinds)
    c = lifecycle(rng, algos=RESTART_ALGOS[kind], dims=(2, 3), maxiter=(1, 2, 3, 5, 8, 15))
    c["restarts"] = rng.choice([1, 2, 2, 3, 3, 4, 6])
    if c["lambda"] == -1 or c["lambda"] > 8:
        c["lambda"] = rng.choice([2, 3, 5, 8])
    if c.get("tpa") == 2 and c["lambda"] < 4:
        c["lambda"] = 6
    if kind == 2:
        c["restarts"] = min(c["restarts"], 4)
    if c["maxiter"] > 30:
        c["maxiter"] = 30
    if budget or rng.random() < .3:
        c["maxfevals"] = rng.choice([1, 10, 20, 40, 60, 100, 200])
    if abort:
        c["userstop"] = rng.choice([1, 2, 3, 4, 6, 9, 14, 20])
    if rng.random() < .3:
        objective(rng, c, ["script", "hash", "rastrigin"])
    return settle(c)


def settle(c):
    if c.get("elitism") == 3 and c["obj"] == "script":
        c["cyc"] = 0
    if c.get("entry") == "ext" and (c.get("elitism") or c.get("inifv") or c.get("edm") or c.get("algo", 0) % 3):
        c.pop("entry")
    if c.get("grad") or c.get("edm"):
        c.pop("infat", None)
    return c


def budget(rng):
    c = lifecycle(rng, maxiter=(1, 2, 3, 4, 7, 12, 25))
    c.pop("crit", None)
    r = rng.random()
    if r < .6:
        c["maxfevals"] = rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233])
    if r < .3:
        c["maxiter"] = 300
    if r > .5:
        c["ftarget"] = rng.choice([0.0, 1e-10, 1e-3, 0.5, 1.0, 2.0, 5.0, 50.0, -1.0])
        c["maxiter"] = rng.choice([10, 100, 300])
    if rng.random() < .5:
        c["crit"] = ["%d:0" % k for k in (-15, -13, 1, 2, 3, 4, 5, 6, 7)]
    if rng.random() < .04:
        c["maxiter"] = 0
    return c


def stopping(rng):
    """runs that end by each of the criteria"""
    c = lifecycle(rng, maxiter=(300, 60, 20, 5), algos=(0, 3, 6, 9, 0, 3, 12))
    c.pop("userstop", None)
    c["log"] = "d"
    k = rng.random()
    if k < .25:          # plateaus and ties: value histories
        objective(rng, c, ["const", "step", "hash", "script"])
        c["maxhist"] = rng.choice([1, 2, 3, 5, 10, 25])
        c["ftol"] = rng.choice([1e-12, 0.5, 1.5])
    elif k < .4:         # stagnation needs 20 iterations
        objective(rng, c, ["hash", "script", "rastrigin"])
        c["crit"] = ["1:0", "5:0"]
        c["maxiter"] = rng.choice([25, 60, 200])
    elif k < .5:         # converged or degenerate distributions
        objective(rng, c, ["sphere", "elli", "elli6", "sep1"])
        c["sigma"] = rng.choice([1e-12, 1e-6, 0.5])
        c["crit"] = ["1:0", "6:0"]
        c["maxiter"] = 300
    elif k < .6:
        objective(rng, c, ["linear", "neglinear"])
        c["maxiter"] = 400
        c["crit"] = ["1:0", "6:0", "5:0"]
        c["ftarget"] = rng.choice([-1e300, -1e10])
    elif k < .7:         # huge means against tiny steps
        c["x0"] = [v * rng.choice([1e6, 1e12, 1e17]) for v in c["x0"]]
        c["sigma"] = rng.choice([1e-8, 1e-3, 0.5])
        c.pop("gp", None)
        c.pop("lb", None)
        c.pop("ub", None)
        c.pop("crit", None)
        if rng.random() < .5:
            c["crit"] = ["3:0", "1:0", "2:0"]
    elif k < .75:        # the automatic iteration limit
        c = {"x0": x0(rng, 1), "sigma": 0.5, "seed": rng.randint(1, 10**6), "lambda": rng.choice([64, 100]), "log": "d",
             "algo": rng.choice([0, 3, 6, 9]), "obj": rng.choice(["hash", "rastrigin"]), "maxiter": rng.choice([150, 400]),
             "crit": ["%d:0" % q for q in (-15, -13, 1, 2, 3, 4, 5, 6)]}
    elif k < .87:        # histories longer than the window of the value criteria
        c = {"x0": x0(rng, rng.choice([1, 2, 3])), "sigma": 0.5, "seed": rng.randint(1, 10**6), "lambda": rng.choice([10, 14, 20, 30]), "log": "d",
             "algo": rng.choice([0, 3, 6, 9]), "maxiter": 250, "maxhist": rng.choice([15, 20, 30, 60, 100]), "ftol": rng.choice([1e-12, 1e-6, 1e-3, 0.1])}
        objective(rng, c, ["sphere", "elli", "rosen", "rastrigin", "step", "tilt"])
        if rng.random() < .5:
            c["crit"] = ["%d:0" % q for q in rng.sample([-15, -13, 2, 3, 4, 5, 6], 4)]
    elif k < .95:        # a tolerance on the distribution
        c["xtol"] = rng.choice([1e-6, 1e-3, 0.05, 0.5, 0.99, 1.0, 2.0])
        objective(rng, c, ["sphere", "elli", "rosen", "tilt", "linear", "rastrigin"])
        c["crit"] = ["%d:0" % q for q in rng.sample([1, 5, 6, 3, 4], rng.randint(2, 5))]
        c["maxiter"] = 200
    if len(c["x0"]) > 3 and c["maxiter"] > 200:
        c["maxiter"] = 120
    return settle(c)


def autoiter(rng, dim, lam, maxiter, vd=True):
    """long enough for the automatic iteration limit, or for its absence"""
    return {"x0": x0(rng, dim), "sigma": 1.0, "seed": rng.randint(1, 10**6), "lambda": lam, "log": "d" if dim < 3 else "", "algo": 12 if vd else rng.choice([0, 3, 6, 9]),
            "obj": rng.choice(["hash", "rastrigin"]), "quant": 3, "mod": 9, "maxiter": maxiter, "crit": ["%d:0" % q for q in (-15, -13, 1, 2, 3, 4, 5, 6)]}


def evenvalues(rng):
    """equal best and k-th values in some of the iterations of a short history"""
    dim = rng.choice([2, 3, 3, 3, 4, 6, 6, 9])
    c = {"x0": x0(rng, dim), "sigma": .5, "seed": rng.randint(1, 10**6), "lambda": rng.choice([3, 4, 5, 6, 8]), "algo": rng.choice([0, 3, 6, 9]),
         "obj": "script", "cyc": 0, "maxhist": dim - rng.choice([0, 0, 0, 1]), "maxiter": 40, "crit": ["1:0", "2:0", "6:0"]}
    lam, script = c["lambda"], []
    k = min(lam - 1, 1 + lam // 4 + 1)
    p = rng.choice([.15, .25, .33, .5])
    for _ in range(40):
        v = [0] * (k + 1) + [1] * (lam - k - 1) if rng.random() < p else [0] + [1] * (lam - 1) if rng.random() < .6 else [0] * k + [1] * (lam - k)
        rng.shuffle(v)
        script += v
    c["script"] = script
    return c


def elitist(rng):
    c = lifecycle(rng, maxiter=(2, 3, 5, 8, 15, 30))
    c["elitism"] = rng.choice([1, 1, 2, 2, 3, 3])
    c.pop("tpa", None)
    c.pop("uh", None)
    c.pop("maximize", None)
    if rng.random() < .6:
        objective(rng, c, ["script", "hash", "rastrigin", "linear", "step"])
    if rng.random() < .3:
        c["gp"] = "none"
        for k in ("lb", "ub"):
            c.pop(k, None)
        c["tf"] = rng.choice(["shift", "scale"])
    elif rng.random() < .4:
        bounds(rng, c, len(c["x0"]))
    return settle(c)


def reports(rng):
    c = lifecycle(rng, maxiter=(1, 2, 3, 5, 8, 20))
    if rng.random() < .5:
        c["userstop"] = rng.choice([1, 2, 3, 4, 5, 8, 13])
    if rng.random() < .4:
        c["plotfn"] = 1
        c["fplot"] = "plot.dat"
    return c


def gp(rng, c, kinds=("none", "none", "pwq", "pwq", "pwqlin", "pwqlin", "lin")):
    """any genotype / phenotype transform"""
    dim = len(c["x0"])
    for k in ("gp", "lb", "ub", "tf", "scaling", "shift"):
        c.pop(k, None)
    k = rng.choice(kinds)
    c["gp"] = k
    if k in ("pwq", "pwqlin"):
        bounds(rng, c, dim, k)
    if k == "lin" or (k == "pwqlin" and rng.random() < .4):
        c["scaling"] = [rng.choice([0.1, 0.5, 1.0, 2.0, 7.5]) for _ in range(dim)]
        c["shift"] = [rng.choice([0.0, -1.0, 3.5]) for _ in range(dim)]
    elif rng.random() < .35 and k != "lin":
        c["tf"] = rng.choice(["shift", "scale"])
    return c


def points(rng, algos=(0, 3, 6, 9, 12), small=True):
    c = lifecycle(rng, maxiter=(1, 2, 3, 5, 8, 12), algos=algos)
    c["log"] = "x"
    gp(rng, c)
    if c.get("noisy"):
        c.pop("noisy")
    return settle(c)


def bounded(rng, algos=(0, 3, 6, 9, 12)):
    c = points(rng, algos)
    gp(rng, c, ("pwq", "pwq", "pwqlin"))
    c["sigma"] = rng.choice([0.1, 1.0, 10.0, 1e3, 1e6, 1e12, -1])
    if rng.random() < .4:
        objective(rng, c, ["linear", "neglinear"])
    if rng.random() < .4:      # on the boundary or at its margin
        dim = len(c["x0"])
        for k in range(dim):
            if rng.random() < .5:
                c["x0"][k] = rng.choice([c["lb"][k], c["ub"][k]])
    r = rng.random()
    if r < .2:
        c["grad"] = 1
    elif r < .4 and c.get("elitism") != 3:
        c["uh"] = 1
    elif r < .5:
        c["edm"] = 1
    return settle(c)


def fixedp(rng, algos=(0, 3, 6, 9)):
    c = lifecycle(rng, maxiter=(1, 2, 4, 8, 12), dims=(2, 3, 4, 6), algos=algos)
    c["log"] = "x"
    for k in ("gp", "lb", "ub"):
        c.pop(k, None)
    dim = len(c["x0"])
    idx = rng.sample(range(dim), rng.randint(1, dim - 1))
    c["fixed"] = ["%d:%r" % (k, round(rng.uniform(-3, 3), 3)) for k in idx]
    if rng.random() < .3:
        k = rng.choice(idx)
        c["fixed"].append("%d:%r" % (k, round(rng.uniform(-3, 3), 3)))
    if rng.random() < .3:
        c["unfix"] = [rng.choice(range(dim))]
    if rng.random() < .3:
        bounds(rng, c, dim)
    return settle(c)


# ------------------------------------------------------------ pairs of executions
ALL_ALGOS = tuple(range(15))


def short(rng, algos=ALL_ALGOS, iters=(1, 2, 3, 5, 8), log="xd"):
    """a short run with any options, everything recorded"""
    c = lifecycle(rng, algos=algos, maxiter=iters, dims=(1, 2, 3, 4, 5))
    c["log"] = log
    if c["algo"] % 3 or c.get("elitism") == 3:
        c["restarts"] = rng.choice([1, 2, 3])
        if c["lambda"] == -1 or c["lambda"] > 6:
            c["lambda"] = rng.choice([4, 5, 6])
        c["maxiter"] = rng.choice([1, 2, 4])
    if c["maxiter"] > 30:
        c["maxiter"] = 12
    if c.get("maxfevals", 0) > 200:
        c["maxfevals"] = 150
    if rng.random() < .25:
        gp(rng, c)
        c["sigma"] = rng.choice([0.3, 1.0, 5.0])
    if rng.random() < .12 and len(c["x0"]) > 1:
        c["fixed"] = ["%d:%r" % (rng.randrange(len(c["x0"])), round(rng.uniform(-2, 2), 2))]
    if c["obj"] == "script" and rng.random() < .5:
        objective(rng, c, ["sphere", "elli", "rastrigin", "hash"])
    return settle(c)


def repro(rng):
    c = short(rng)
    c.pop("noisy", None)
    d = dict(c)
    r = rng.random()
    if r < .35:
        d["pre"] = rng.choice([1, 2, 5])
        d["preseed"] = rng.randint(1, 1000)
    elif r < .55:
        d["twice"] = 1
    elif r < .7:
        d["seed"] = c["seed"] + 17
        d["setseed"] = c["seed"]
    if rng.random() < .2:
        c["entry"] = d["entry"] = rng.choice(["plain", "cmaes"])
    return c, d, "same"


def otherseed(rng):
    c = short(rng)
    c.pop("fixed", None)
    c.pop("userstop", None)
    d = dict(c)
    if rng.random() < .5:
        d["setseed"] = c["seed"] + rng.randint(1, 1000)
    else:
        d["seed"] = c["seed"] + rng.choice([1, 2, 1000])
    return c, d, "diff"


def negated(rng):
    c = short(rng)
    c["maximize"] = 1
    d = dict(c)
    d["maximize"] = rng.choice([0, None])
    if rng.random() < .2 and c["obj"] in ("sphere", "elli"):
        c["grad"] = d["grad"] = 2
    if rng.random() < .3:
        c["foffset"] = rng.choice([0.5, -3.0])
    d["fscale"] = -1.0
    if "foffset" in c:
        d["foffset"] = -c["foffset"]
    if rng.random() < .2:
        c["entry"] = d["entry"] = rng.choice(["plain", "cmaes"])
    return c, d, "neg"


MONO = [("mono", "exp"), ("mono", "cube"), ("mono", "log"), ("mono", "sqrt"), ("fscale", 2.0), ("fscale", 0.25), ("fscale", 3.7),
        ("fscale", 1e6), ("fscale", 1e-9), ("foffset", 5.0), ("foffset", -1000.0), ("foffset", 1e6)]


def monotone(rng):
    c = short(rng)
    for k in ("ftarget", "edm", "grad", "ftol", "maximize"):
        c.pop(k, None)
    c["crit"] = sorted(set([t for t in c.get("crit", []) if t.split(":")[0] not in ("1", "6", "10")] + ["1:0", "6:0", "10:0"]))
    if "9:0" in c["crit"] and "maxfevals" not in c:
        c["crit"].remove("9:0")
    d = dict(c)
    if c.get("uh"):
        d["fscale"] = rng.choice([2.0, 0.125, 1024.0])
    else:
        k, v = rng.choice(MONO)
        d[k] = v
        if rng.random() < .3 and k != "fscale":
            d["fscale"] = rng.choice([0.5, 3.0, 1e3])
    return c, d, "mono"


def datafile(rng):
    c = short(rng, iters=(1, 3, 6, 12), log="xdr")
    c["fplot"] = "@"
    if rng.random() < .4:
        c["fullfplot"] = 1
    if rng.random() < .3:
        gp(rng, c)
    c["entry"] = rng.choice(["opt", "opt", "opt", "plain", "cmaes"])
    if c["entry"] != "opt":
        c.pop("fullfplot", None)
    return settle(c)


def parallel(rng, lam, free=False):
    c = short(rng, iters=(3, 4, 5))
    c["lambda"] = lam
    c["mt"] = 1
    c.pop("userstop", None)
    c.pop("noisy", None)
    c.pop("tpa", None)
    c.pop("infat", None)
    if c["obj"] in ("script", "const"):       # values must depend on the point only
        objective(rng, c, ["sphere", "elli", "rastrigin", "hash", "tilt"])
    if c["algo"] % 3 and not free:
        c["algo"] -= c["algo"] % 3
    if c["algo"] >= 12 and len(c["x0"]) < 6:
        c["algo"] = 0
    if free:
        c["spin"] = rng.choice([5, 40, 120])
        c["maxiter"] = rng.choice([2, 4, 6])
        c["restarts"] = 2
    else:
        c["maxiter"] = 4
        c.pop("maxfevals", None)
        c.pop("ftarget", None)
    return settle(c)


# ------------------------------------------------------------------- settings
NAMES = ["cmaes", "ipop", "bipop", "acmaes", "aipop", "abipop", "sepcmaes", "sepipop", "sepbipop", "sepacmaes", "sepaipop",
         "sepabipop", "vdcma", "vdipopcma", "vdbipopcma"]


def program(rng, q):
    """the program as generated, and its meaning as a program in another order"""
    from vlib import spec_cfg
    if q["val"]["elitism"] == "3" and (q["val"]["uh"] == "1" or q["val"]["tpa"] == "2"):
        return None
    base = {"x0": x0(rng, 6), "sigma": rng.choice([0.3, 1.0]), "lambda": rng.choice([4, 5, 7]), "seed": rng.randint(1, 10**6), "log": "xd",
            "obj": rng.choice(["sphere", "elli", "rastrigin", "tilt"])}
    items = [[k, v] for k, v in q["val"].items() if v != "unset"]
    if q["val"]["maxiter"] == "unset":
        items.append(["maxiter", "6"])
    if q["val"]["restarts"] == "unset":
        items.append(["restarts", "2"])
    items += [["crit", "%s:%s" % (k, v)] for k, v in q["crit"].items() if v != "unset"]
    items += [["fixed", "%s:%s" % (k, v)] for k, v in q["fixed"].items() if v != "unset"]
    a = q["algo"]
    if q["sep"] and not 6 <= a <= 11:
        items.append(["sep", "1"])
    if a:
        # a name where the covariance model was chosen already, a code otherwise
        byname = (6 <= a <= 11 and q["sep"]) or (a >= 12 and q["vd"]) or a < 6 and rng.random() < .5
        items.append(["stralgo", NAMES[a]] if byname else ["algo", str(a)])
    rng.shuffle(items)
    head = [["maxiter", "6"], ["restarts", "2"]]
    c = dict(base)
    c["prog"] = ["%s~%s" % (k, v) for k, v in head + q["prog"]]
    d = dict(base)
    d["prog"] = ["%s~%s" % (k, v) for k, v in items]
    e = rng.choice(["opt", "opt", "plain", "cmaes"])
    c["entry"] = d["entry"] = e
    exp = {}
    v = q["val"]
    for k in ("maxiter", "maxfevals", "tpa", "restarts"):
        if v[k] != "unset":
            exp[k] = int(v[k])
    if v["setseed"] != "unset":
        exp["seed"] = int(v["setseed"])
    for k in ("grad", "edm", "mt", "maximize", "uh", "lazy"):
        if v[k] != "unset":
            exp[k] = v[k] == "1"
    for k in ("ftol", "xtol", "ftarget"):
        if v[k] != "unset":
            exp[k] = v[k]
    if v["ftarget"] == "unset":
        exp["ftarget"] = "-Infinity"
    exp["algo"] = a
    exp["lambda"] = base["lambda"]
    if e != "opt" and e != "plain":
        exp["sep"], exp["vd"] = q["sep"], q["vd"]
    if e == "opt" and not (v["tpa"] == "2" and v["elitism"] not in ("unset", "0")):
        m = dict(base)
        for k in ("maxiter", "maxfevals", "elitism", "inifv", "uh", "tpa", "grad", "edm", "mt", "maximize", "lazy", "restarts", "maxhist"):
            if v[k] != "unset":
                m[k] = int(v[k])
        for k in ("ftarget", "ftol", "xtol"):
            if v[k] != "unset":
                m[k] = float(v[k])
        m.setdefault("maxiter", 6)
        m.setdefault("restarts", 2)
        m["algo"] = a
        m["crit"] = ["%s:%s" % (k, w) for k, w in q["crit"].items() if w != "unset"]
        m["fixed"] = ["%s:%s" % (k, w) for k, w in q["fixed"].items() if w != "unset"]
        if v["setx0"] != "unset":
            m["x0"] = [float(v["setx0"])] * 6
        cfg = spec_cfg(m, {})
        cfg["sep"] = cfg["sep"] or q["sep"]
        c["_meaning"] = cfg
    return c, d, "same", exp


def name_code(rng):
    """an algorithm by name and by code"""
    c = short(rng)
    a = c.pop("algo")
    d = dict(c)
    c["stralgo"] = NAMES[a]
    d["algo"] = a
    e = rng.choice(["cmaes", "plain", "opt"])
    c["entry"] = d["entry"] = e
    return c, d, "point"


def entries(rng):
    """the one-call entry point, the optimizer object, its custom-function form"""
    c = short(rng)
    d = dict(c)
    c["entry"], d["entry"] = rng.choice([("cmaes", "plain"), ("plain", "opt"), ("cmaes", "opt"), ("opt", "cmaes")])
    return c, d, "point"


# ------------------------------------------------------- the search distribution
def distribution(rng, algos=(0, 0, 3, 3, 6, 9, 12), iters=(2, 4, 7, 12)):
    c = {"seed": rng.randint(1, 10**6), "sigma": rng.choice([0.1, 0.5, 1.0, 2.5, 10.0, -1]), "log": "xdrz", "algo": rng.choice(algos)}
    dim = rng.choice([1, 2, 3, 4, 5, 7])
    if c["algo"] >= 12:
        dim = rng.choice([6, 7, 9])
    c["x0"] = x0(rng, dim)
    c["lambda"] = rng.choice([-1, 2, 3, 4, 5, 7, 8, 11, 16])
    c["maxiter"] = rng.choice(iters)
    objective(rng, c, ["sphere", "elli", "rosen", "linear", "rastrigin", "tilt", "hash", "step", "sep1"])
    c["crit"] = ["%d:0" % k for k in (-15, -13, 1, 2, 3, 4, 5, 6, 7)]
    if rng.random() < .12:
        c["maximize"] = 1
    if rng.random() < .15:
        c["lazy"] = 1
        c["maxiter"] = max(c["maxiter"], 8)
    if rng.random() < .15 and dim > 1 and c["algo"] < 12:
        c["fixed"] = ["%d:%r" % (k, round(rng.uniform(-2, 2), 2)) for k in rng.sample(range(dim), rng.randint(1, dim - 1))]
    if rng.random() < .2:
        gp(rng, c)
        if rng.random() < .5:
            c["sigma"] = 0.3
    if rng.random() < .12:
        c["elitism"] = rng.choice([1, 2, 3] if c["algo"] < 12 else [1, 2])     # a VD restart reseeds
        settle(c)
    if rng.random() < .1:
        c["mt"] = 1
    if rng.random() < .06 and c["algo"] in (0, 3):
        c["noisy"] = 1
        c["lambda"] = rng.choice([2, 3])
        c.pop("lazy", None)
    if rng.random() < .12 and c["algo"] < 12 and not c.get("noisy"):      # restarts
        c["algo"] += rng.choice([1, 2])
        c["lambda"] = rng.choice([4, 5, 6])
        c["maxiter"] = rng.choice([2, 4])
        c["restarts"] = 2
    elif rng.random() < .15 and c.get("elitism") != 3 and not c.get("mt"):
        c["edm"] = 1
        if rng.random() < .3:
            c["grad"] = 2
            c["obj"] = rng.choice(["sphere", "elli"])
    return c


def injected(rng):
    c = distribution(rng)
    c.pop("elitism", None)
    c.pop("noisy", None)
    r = rng.random()
    if r < .75:
        c["grad"] = rng.choice([1, 1, 2])
        if c["grad"] == 2:
            c["obj"] = rng.choice(["sphere", "elli"])
    if r > .4:
        c["tpa"] = 2
        c["lambda"] = rng.choice([4, 5, 7, 8, 12])
    return c


def unmoved(rng):
    """two-point adaptation where the mean cannot move any more: every sample rounds to it"""
    c = injected(rng)
    for k in ("gp", "lb", "ub", "scaling", "shift", "tf", "fixed", "grad", "warm"):
        c.pop(k, None)
    c["tpa"] = 2
    c["lambda"] = rng.choice([4, 5, 7, 8, 12])
    c["x0"] = [rng.choice([-1, 1]) * rng.uniform(1, 9) * 1e17 for _ in c["x0"]]
    c["sigma"] = rng.choice([.01, .5])
    c["obj"] = rng.choice(["sphere", "linear"])
    c["crit"] = ["%d:0" % k for k in (-15, -13, 1, 2, 3, 4, 5, 6, 7)]
    return c


def uncertain(rng):
    c = distribution(rng)
    for k in ("elitism", "mt", "noisy"):
        c.pop(k, None)
    c["uh"] = 1
    c["lambda"] = rng.choice([4, 5, 7, 10, 12, 15, 16, 24])
    objective(rng, c, ["sphere", "elli", "rastrigin", "tilt", "rosen"])
    if rng.random() < .75:
        c["noise"] = rng.choice([0.01, 0.3, 2.0, 20.0])
    if rng.random() < .15:
        c["tpa"] = 2
    return c


def sampled(rng):
    c = distribution(rng, iters=(1, 3, 6, 10))
    c.pop("noisy", None)
    if c["algo"] % 3 == 0 and rng.random() < .5:
        c["poke"] = ["%d:%s:%r" % (rng.randint(0, 4), w, rng.choice([0.01, 0.7, 3.0, 40.0] if w == "sigma" else [-3.0, 0.0, 2.5, 100.0]))
                     for w in rng.choice([["sigma"], ["xmean"], ["sigma", "xmean"]])]
        c.pop("fixed", None)
    if rng.random() < .3:
        c["lazy"] = 1
        c["maxiter"] = 10
    if rng.random() < .15:
        c["grad"] = 1
    if rng.random() < .15 and c["algo"] < 12:
        c["tpa"] = 2
        c["lambda"] = rng.choice([4, 6, 9])
        c.pop("elitism", None)
    if rng.random() < .15 and not c.get("elitism"):
        c["uh"] = 1
    return c


def longrun(rng):
    """runs long enough to become ill-conditioned or to converge"""
    c = distribution(rng, iters=(30, 60, 100))
    c["log"] = "xdr"
    c["lambda"] = rng.choice([-1, 4, 6, 8])
    objective(rng, c, ["elli6", "elli", "sep1", "rosen", "linear", "sphere", "hash"])
    c.pop("elitism", None)
    c.pop("noisy", None)
    if c["algo"] % 3 and c["algo"] < 12:
        c["algo"] -= c["algo"] % 3
    c["maxiter"] = rng.choice([30, 60, 100])
    c.pop("crit")
    if rng.random() < .5:
        c["crit"] = ["%d:0" % k for k in (1, 5, 6, 7)]
    return c


# --------------------------------------------------- starting from a solution
def warm(rng, f=None):
    """an earlier optimization of any kind, and one that starts from its solution"""
    c = (f or short)(rng)
    for k in ("noisy", "fixed", "tf"):
        c.pop(k, None)
    if c["sigma"] < 0:
        c["sigma"] = 0.4
    if c.get("elitism") == 3:
        c["elitism"] = 1
    a = c["algo"]
    fam = 0 if a < 6 else 6 if a < 12 else 12
    w = {"algo": rng.choice({0: [0, 1, 2, 3, 4, 5], 6: [6, 7, 8, 9, 10, 11], 12: [12, 13, 14]}[fam]), "restarts": 2,
         "maxiter": rng.choice([1, 3, 8, 20]), "lambda": rng.choice([4, 5, 8, 13]), "sigma": rng.choice([0.2, 1.0, 3.0]),
         "obj": rng.choice(["sphere", "elli", "rastrigin"]), "seed": rng.randint(1, 1000)}
    r = rng.random()
    if r < .15:
        w["maxfevals"] = rng.choice([1, 10, 40])
    elif r < .25:
        w["ftarget"] = rng.choice([1.0, 1e-2, 1e9])
    elif r < .35:
        w["maxhist"] = rng.choice([2, 20])
    elif r < .45:
        w["uh"] = 1
    elif r < .55 and fam < 12:
        w["lambda"] = 6
        w["lazy"] = 1
    elif r < .65:
        w["elitism"] = rng.choice([1, 2])
    elif r < .75:
        w["maximize"] = 1
    elif r < .9:
        # a search that ends on an error criterion: condition number, diverging step-size
        w.update(obj=rng.choice(["sep1", "sep1", "linear"]), crit="1:0,2:0,3:0,4:0,5:0,6:0,7:0", maxiter=2000, restarts=1)
        w["lambda"] = 10
    c["warm"] = "/".join("%s~%s" % kv for kv in w.items())
    return c


def start(rng):
    """searches that start afresh: any starting point, step-size, transform, variant and restart strategy"""
    c = lifecycle(rng, maxiter=(1, 2, 3, 6, 15), algos=ALL_ALGOS, dims=(1, 2, 2, 3, 4, 6, 9, 14, 25))
    for k in ("gp", "lb", "ub", "tf", "scaling", "shift", "prog", "entry", "grad"):
        c.pop(k, None)
    c["log"] = "xdr"
    dim = len(c["x0"])
    gp(rng, c)
    c["restarts"] = rng.choice([1, 2, 3])
    c["entry"] = rng.choice(["opt", "opt", "plain", "cmaes"])
    if rng.random() < .3:
        c["ptrctor"] = 1
    if rng.random() < .25:
        c["lambda"] = rng.choice([1, 0, -1, -7])
    if rng.random() < .2:
        c["sigma"] = rng.choice([0.0, -0.5, 1e-9, 1e6])
    r = rng.random()
    if r < .12:
        c["x0"] = [-1.7976931348623157e308] * dim
    elif r < .3:
        c["x0max"] = [round(v + rng.choice([0.0, 1e-3, 1.0, 20.0]), 4) for v in c["x0"]]
    elif r < .5 and c["gp"] in ("lin", "pwqlin"):
        for k in ("tf", "scaling", "shift", "ptrctor"):
            c.pop(k, None)
        c["vsigma"] = [rng.choice([0.01, 0.1, 0.5, 1.0, 4.0, 30.0]) for _ in range(dim)]
        if c["gp"] == "lin":
            c["lb"], c["ub"] = [-1e9] * dim, [1e9] * dim
        else:
            c["lb"] = [v - 100.0 * s for v, s in zip(c["x0"], c["vsigma"])]
            c["ub"] = [v + 70.0 * s for v, s in zip(c["x0"], c["vsigma"])]
    if dim > 1 and c["gp"] in ("none", "pwq") and "tf" not in c and rng.random() < .2:
        q = rng.sample(range(dim), rng.randint(1, dim - 1))
        lim = (lambda k: (c["lb"][k], c["ub"][k])) if c["gp"] == "pwq" else (lambda k: (-3, 3))
        c["fixed"] = ["%d:%r" % (k, round(rng.uniform(*lim(k)), 3)) for k in q]
    if c["algo"] >= 12 and dim < 6:
        c["algo"] -= 12
    if c.get("tpa") == 2 and c["lambda"] < 4:
        c["lambda"] = 8
    return settle(c)


def warmpair(rng):
    c = warm(rng)
    if rng.random() < .5:
        c["maximize"] = 1
        d = dict(c)
        d["maximize"] = 0
        d["fscale"] = -1.0
        return c, d, "neg"
    d = dict(c)
    if c["algo"] >= 12:
        return c, d, "same"
    c["entry"], d["entry"] = rng.choice([("cmaes", "plain"), ("plain", "opt"), ("cmaes", "opt")])
    return c, d, "point"


# ------------------------------------------------- transforms, and their reduction
def gbounds(rng, dim):
    lb, ub = [], []
    for _ in range(dim):
        a = rng.choice([0.0, -1.0, 3.0, -5.0, 100.0, round(rng.uniform(-20, 20), 3), -1e5])
        w = rng.choice([1.0, 0.1, 1e-3, 4.0, 9.5, 50.0, 1e3, round(rng.uniform(.01, 5), 3)])
        lb.append(a)
        ub.append(a + w)
    return lb, ub


def gtransform(rng, dim, plain=False):
    c = {"gp": rng.choice(["none", "pwq", "pwq", "lin", "pwqlin", "pwqlin"])}
    if c["gp"] != "none" and rng.random() < .85 and not (c["gp"] == "lin" and rng.random() < .5):
        c["lb"], c["ub"] = gbounds(rng, dim)
    if c["gp"] in ("lin", "pwqlin") and not (c["gp"] == "lin" and "lb" in c) and rng.random() < .5:
        c["scaling"] = [rng.choice([0.1, 0.5, 1.0, 2.0, 7.5]) for _ in range(dim)]
        c["shift"] = [rng.choice([0.0, -1.0, 3.5]) for _ in range(dim)]
    elif rng.random() < .45:
        c["tf"] = rng.choice(["shift", "scale"] if plain else ["shift", "scale", "rev"])
    return c


def gvectors(rng, c, dim, n, feasible):
    out = []
    for _ in range(n):
        v = []
        for k in range(dim):
            if "lb" in c and (feasible or rng.random() < .7) and c["gp"] != "lin":
                a, b = c["lb"][k], c["ub"][k]
                w = b - a
                if feasible:
                    v.append(rng.choice([a, b, a + w / 2, a + 1e-9 * w, b - 1e-9 * w, rng.uniform(a, b), a + .05 * w]))
                    v[-1] = min(max(v[-1], a), b)
                else:
                    v.append(rng.choice([a, b, a - w, b + w, rng.uniform(a - 3 * w, b + 3 * w), a - 1e3 * w, b + 1e6 * w]))
            else:
                v.append(rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-20, 20), 4), 1e3, -1e6]
                                    + ([] if feasible else [1e16, -1e100, 1e300, -1e300])))
        out.append(v)
    return out


def vecs(vs):
    return "/".join(",".join(repr(float(q)) for q in v) for v in vs)


def transform(rng, remove=False, big=False):
    dim = rng.choice([2, 3, 4, 6] if remove else [1, 2, 3, 5])
    c = {"op": "gp", **gtransform(rng, dim)}
    n = 130 if big else 6
    c["xs"] = vecs(gvectors(rng, c, dim, n, False))
    c["ys"] = vecs(gvectors(rng, c, dim, n, True))
    if remove:
        c["remove"] = rng.sample(range(dim), rng.randint(1, dim - 1))
    return c


def reduction(rng):
    """a solution and its settings from which dimensions are removed one by one"""
    dim = rng.choice([3, 4, 5, 7])
    ks = []
    for q in range(rng.randint(1, dim - 2)):
        ks.append(rng.randrange(dim - q))
    return {"op": "fix", "x0": [round(rng.uniform(-3, 3), 2) for _ in range(dim)], "sigma": rng.choice([.3, 1.0]), "lambda": rng.choice([4, 7, 12]),
            "seed": rng.randint(1, 9999), "remove": ks, "maxiter": rng.choice([1, 3, 6]), "obj": rng.choice(["sphere", "elli"]),
            "algo": rng.choice([0, 3]), "tpa": rng.choice([1, 1, 2])}


def held(rng):
    """the others optimized with some parameters held"""
    dim = rng.choice([2, 3, 4, 5])
    c = {"op": "vpk", **gtransform(rng, dim, True)}
    ks = rng.sample(range(dim), rng.randint(1, dim))
    lo = c["lb"] if "lb" in c else [-2.0] * dim
    hi = c["ub"] if "ub" in c else [2.0] * dim
    mid = [a + (b - a) * rng.uniform(.2, .8) for a, b in zip(lo, hi)]
    c["pheno"] = rng.choice([0, 1])
    vk = []
    for k in ks:
        y = lo[k] + (hi[k] - lo[k]) * rng.uniform(.1, .9)
        if not c["pheno"]:
            y = rng.uniform(-5, 15)
        vk.append(round(y, 6))
    c.update({"x0": mid, "sigma": .3, "lambda": rng.choice([4, 6]), "seed": rng.randint(1, 9999), "maxiter": 3, "k": ks, "vk": vk,
              "obj": rng.choice(["sphere", "elli"])})
    return c


def profile(rng):
    """a search, then profile likelihoods of some of its parameters"""
    dim = rng.choice([1, 2, 2, 3, 3, 4])
    c = {"x0": [round(rng.uniform(-1, 4), 2) for _ in range(dim)], "sigma": .5, "seed": rng.randint(1, 9999), "lambda": rng.choice([-1, 8, 12]),
         "algo": rng.choice([0, 0, 3, 6, 9] + ([] if dim < 3 else [12])),
         "obj": rng.choice(["tilt", "tilt", "sphere", "elli", "rosen"]), "k": [rng.randrange(dim) for _ in range(rng.choice([1, 1, 2]))],
         "n": rng.choice([1, 2, 3, 5]), "fup": rng.choice([.1, .1, .5, 1.0, .01]), "delta": rng.choice([.1, .1, .05]), "curve": rng.choice([0, 1]), "plmax": rng.choice([30, 60])}
    r = rng.random()
    if r < .35:
        c["gp"] = rng.choice(["pwq", "pwqlin"])
        w = rng.choice([1.0, 3.0, 50.0])
        c["lb"] = [v - w * rng.uniform(.2, .8) for v in c["x0"]]
        c["ub"] = [a + w for a in c["lb"]]
        if rng.random() < .3:
            c["fup"] = 50.0     # not reached within the bounds
    elif r < .5:
        c["gp"] = "lin"
        c["scaling"] = [rng.choice([.5, 1.0, 2.0]) for _ in range(dim)]
        c["shift"] = [rng.choice([0.0, -1.0]) for _ in range(dim)]
    if c.get("gp", "none") in ("none", "pwq") and rng.random() < .2:
        c["tf"] = rng.choice(["shift", "scale"])
    s = rng.choice([0, 0, 1, 2])
    if s == 1:
        c["foffset"] = rng.choice([-100.0, 100.0, 3.0])
    elif s == 2:
        c["maximize"] = 1
        c["fscale"] = -1.0
        c["foffset"] = rng.choice([0.0, 5.0, -5.0])
    if rng.random() < .3:
        c["maxiter"] = rng.choice([5, 20])
    if rng.random() < .2:
        c["pre"] = 1
    return c


def contour(rng):
    """a search, then a contour of two of its parameters"""
    c = profile(rng)
    while len(c["x0"]) < 2:
        c = profile(rng)
    dim = len(c["x0"])
    c.pop("k")
    c.pop("curve")
    c["contour"] = rng.sample(range(dim), 2)
    c["np"] = rng.choice([4, 5, 6, 8, 12])
    if rng.random() < .25:
        c["obj"] = "corr"
        c["contour"] = rng.choice([[0, 1], [1, 0]])
    if rng.random() < .3:
        c["first"] = [rng.choice(c["contour"])]
    c["plmax"] = rng.choice([30, 100])
    return c


def surrogate(rng):
    """a surrogate-assisted search with a model of any quality"""
    algo = rng.choice([0, 0, 0, 3, 6, 9, 12, 1, 2, 4, 7, 13])
    dim = rng.choice([1, 2, 3, 4]) if algo < 12 else rng.choice([3, 6])
    c = {"surr": rng.choice(["simple", "acm"]), "x0": x0(rng, dim), "sigma": rng.choice([.1, .5, 2.0]), "lambda": rng.choice([3, 4, 5, 6, 8, 9, 12]),
         "seed": rng.randint(1, 10**6), "algo": algo, "model": rng.choice(["good", "good", "bad", "const", "low", "noise"]),
         "l": rng.choice([2, 5, 10, 15, 24]), "maxiter": rng.choice([6, 12, 18]), "crit": ["%d:0" % k for k in (-15, -13, 1, 2, 3, 4, 5, 6, 7)]}
    objective(rng, c, ["sphere", "elli", "rosen", "linear", "rastrigin", "tilt", "hash", "step"])
    if c["surr"] == "simple":
        c["nsteps"] = rng.choice([1, 2, 3, 5, 8, -1, -1])
    else:
        c["prelambda"] = c["lambda"] * rng.choice([2, 3, 5])    # as many as are kept would take very long to draw
        if rng.random() < .5:
            c["lprime"] = rng.randint(0, c["lambda"])
    r = rng.random()
    if r < .2:
        c["xs"] = "".join(rng.choice("01") for _ in range(c["maxiter"]))
    elif r < .3:
        c["exploit"] = 0
    if algo % 3:
        c["restarts"] = rng.choice([1, 2])
        c["maxiter"] = rng.choice([4, 8])
        c["lambda"] = rng.choice([3, 5, 6])
        if c["surr"] == "acm":
            c.pop("lprime", None)
            c["prelambda"] = 4 * c["lambda"]
    if rng.random() < .25:
        gp(rng, c)
        if c.get("gp", "none") != "pwqlin":
            for k in ("gp", "lb", "ub", "scaling", "shift"):
                c.pop(k, None)
    if rng.random() < .15:
        c["maximize"] = 1
    if rng.random() < .3:
        c["ftarget"] = rng.choice([1.0, .1, 5.0, -1e5, -100.0])
        if rng.random() < .3:
            c["crit"] = c["crit"] + ["10:0"]
    if rng.random() < .15:
        c["inifv"] = 1
    if rng.random() < .15 and dim > 1 and algo < 12:
        c["fixed"] = ["%d:%r" % (rng.randrange(dim), round(rng.uniform(-1, 1), 2))]
    if rng.random() < .1:
        c["infat"] = sorted(rng.sample(range(1, 80), 30))
    c["twice"] = rng.choice([0, 1])
    return c
