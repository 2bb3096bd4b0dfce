----------------------------- MODULE StartTrace -----------------------------
(***************************************************************************)
(* Where searches that start afresh begin (C29): the mean, step-size,      *)
(* covariance, evolution paths, counters and population of every run, the  *)
(* value of the initial point, the default settings.  Checked at the       *)
(* first report of every run of recorded optimizations.                    *)
(***************************************************************************)
EXTENDS CmaOps, Geno, Json, IOUtils
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, at, errs
vars == <<rid, i, at, errs>>
R == Runs[rid]
C == R.cfg
E == R.ev[i]
Chk(name, ok) == IF ok THEN {} ELSE {<<"C29", name>>}
Full == ~C.sep /\ ~C.vd
Ones(k) == [j \in 1..k |-> "1.0"]
Unit(e) == IF Full THEN MClose(e.cov, MDiag(Ones(C.dim)), "0.0", "0.0") ELSE VClose(e.sepcov, Ones(C.dim), "0.0", "0.0")

\* step-sizes per parameter are a scaling by their inverse, where the transform has a scaling
Vs(c) == c.vsigma # <<>>
T(c) == [gp |-> c.gp, lb |-> c.lb, ub |-> c.ub, tf |-> c.tf,
         scaling |-> IF Vs(c) THEN [k \in 1..c.dim |-> FDiv("1.0", c.vsigma[k])] ELSE c.scaling,
         shift |-> IF Vs(c) THEN [k \in 1..c.dim |-> "0.0"] ELSE c.shift]
In(c, v) == [k \in 1..c.dim |-> FAdd(FMul(v[k], Scal(T(c), k)), Shift(T(c), k))]
Scaled(c) == HasScaling(T(c))
Least(v) == NthSmallest(v, 1)
Sigma0(c) == IF ~Vs(c) THEN c.sigma0 ELSE IF Scaled(c) THEN "1.0" ELSE Least(c.vsigma)

Lowest == "-1.7976931348623157e308"
NoX0(c) == c.x0max = <<>> /\ \A k \in 1..c.dim : FEq(c.x0[k], Lowest)
Range(c) == c.x0max # <<>> \/ NoX0(c)
Lo(c) == IF NoX0(c) THEN [k \in 1..c.dim |-> "-4.0"] ELSE c.x0
Hi(c) == IF NoX0(c) THEN [k \in 1..c.dim |-> "4.0"] ELSE c.x0max
IsFixed(c, k) == \E q \in 1..Len(c.fixed) : c.fixed[q][1] = k - 1
FixedTo(c, k) == c.fixed[CHOOSE q \in 1..Len(c.fixed) : c.fixed[q][1] = k - 1][2]
Near(a, b) == FLe(FAbs(FSub(a, b)), FMul("1e-12", FMax("1.0", FMax(FAbs(a), FAbs(b)))))
AtX0(c, x) ==
  LET a == In(c, c.x0) lo == In(c, Lo(c)) hi == In(c, Hi(c)) IN
  \A k \in 1..c.dim :
    IF IsFixed(c, k) THEN FEq(x[k], FixedTo(c, k))
    ELSE IF Range(c) THEN FLe(FSub(FMin(lo[k], hi[k]), "1e-9"), x[k]) /\ FLe(x[k], FAdd(FMax(lo[k], hi[k]), "1e-9"))
    ELSE Near(x[k], a[k])
\* of three or more parameters drawn from a range, not all have the same place in it
Place(c, x, k) == LET lo == In(c, Lo(c)) hi == In(c, Hi(c)) IN FDiv(FSub(x[k], lo[k]), FSub(hi[k], lo[k]))
Drawn(c) == {k \in 1..c.dim : ~IsFixed(c, k) /\ FLt("1e-2", FAbs(FSub(Hi(c)[k], Lo(c)[k])))}
Independent(c, x) == Cardinality(Drawn(c)) >= 3 => \E k, q \in Drawn(c) : ~FLe(FAbs(FSub(Place(c, x, k), Place(c, x, q))), "1e-6")
SameX(x, y) == \A k \in 1..C.dim : Near(x[k], y[k])

Start(e) == e.e = "rep" /\ e.niter = 0
Initial == IF C.elit \in {1, 2} \/ C.inifv THEN 1 ELSE 0
\* the initial value is also taken by a repeated run of elitism 3
Again == at # <<>> /\ C.elit = 3
Prev == R.ev[CHOOSE j \in 1..(i-1) : R.ev[j].e = "rep" /\ \A k \in (j+1)..(i-1) : R.ev[k].e # "rep"]
DefaultLambda(d) == 4 + FToInt(FFloor(FMul("3.0", FLog(FFromInt(d)))))
SmallRun == C.strat = "bipop" /\ at # <<>>

Init == rid \in 1..Len(Runs) /\ i = 1 /\ at = <<>> /\ errs = {}
Next ==
  /\ i <= Len(R.ev)
  /\ i' = i + 1 /\ UNCHANGED rid
  /\ at' = IF Start(E) THEN E.xmean ELSE at
  /\ errs' =
       IF ~Start(E) THEN {} ELSE
             Chk("status is 0 at the start", E.status = 0)
        \cup Chk("covariance is the identity at the start", Unit(E))
        \cup Chk("evolution paths are zero at the start", VMaxAbs(E.pc) = "0.0" /\ VMaxAbs(E.ps) = "0.0")
        \cup Chk("population is that of the settings", E.size = E.lambda)
        \cup Chk("a run starts at the initial point",
                 IF at = <<>> THEN AtX0(C, E.xmean)
                 ELSE IF C.elit = 3 THEN (IF C.strat # "single" THEN SameX(E.xmean, at) \/ AtX0(C, E.xmean) ELSE FALSE)
                                          \/ SameX(E.xmean, Prev.bseen.x)
                 ELSE AtX0(C, E.xmean))
        \cup Chk("the parameters are drawn independently", (at = <<>> /\ Range(C)) => Independent(C, E.xmean))
        \cup Chk("a run starts with the initial step-size", SmallRun \/ Near(E.sigma, Sigma0(C)))
        \cup Chk("step-sizes are those given for each parameter",
                 (~SmallRun /\ Vs(C) /\ Scaled(C)) => \A k \in 1..C.dim : Near(FDiv(E.sigma, Scal(T(C), k)), C.vsigma[k]))
        \cup Chk("default population size",
                 (at = <<>> /\ C.lambda0 < 2) => E.lambda = DefaultLambda(C.dim) * (IF C.noisy THEN 5 ELSE 1))
        \cup Chk("given population size",
                 (at = <<>> /\ C.lambda0 >= 2) => E.lambda = C.lambda0 * (IF C.noisy THEN 5 ELSE 1))
        \cup Chk("the initial value is taken at the initial point",
                 (Initial = 1 /\ Len(E.calls) = 1 /\ Initial = E.fevals)
                   => LET p == Pheno(T(C), E.xmean) IN \A k \in 1..C.dim : FLe(FAbs(FSub(E.calls[1].x[k], p[k])), FMul("1e-9", FMax("1.0", FAbs(p[k])))))
        \cup Chk("the initial value is counted", (Initial = 1 /\ at = <<>>) => (Len(E.calls) = 1 /\ E.fevals = 1))
        \cup Chk("nothing is evaluated before the first iteration", (Initial = 0 /\ at = <<>>) => (Len(E.calls) = 0 /\ E.fevals = 0))

\* starting points of a range are spread over it
Starts == {q \in 1..Len(Runs) : Range(Runs[q].cfg) /\ Len(Runs[q].ev) > 0 /\ Start(Runs[q].ev[1])}
Us == {<<q, k, LET c == Runs[q].cfg lo == In(c, Lo(c)) hi == In(c, Hi(c)) IN FDiv(FSub(Runs[q].ev[1].xmean[k], lo[k]), FSub(hi[k], lo[k]))>> :
         <<q, k>> \in {w \in Starts \X (1..40) : w[2] <= Runs[w[1]].cfg.dim /\ ~IsFixed(Runs[w[1]].cfg, w[2])
                                                  /\ ~FEq(Lo(Runs[w[1]].cfg)[w[2]], Hi(Runs[w[1]].cfg)[w[2]])}}
Spread == (rid = 1 /\ i = 1 /\ Cardinality(Us) >= 150) =>
            \A a \in 0..3 : \E u \in Us : FLe(FMul("0.25", FFromInt(a)), u[3]) /\ FLe(u[3], FMul("0.25", FFromInt(a + 1)))
OK == errs = {}
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, i |-> i, errs |-> errs]
=============================================================================
