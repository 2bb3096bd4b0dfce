------------------------------ MODULE CovTrace ------------------------------
(***************************************************************************)
(* Validation of the search distribution of recorded runs (log=xdrz):      *)
(* what is sampled from it, what is injected, how it is updated, and how   *)
(* it is reported.                                                         *)
(*   C14 uncertainty handling      C19 injected points, two-point step-size*)
(*   C20 updates                   C21 validity of the reports             *)
(*   C24 candidates are samples of the distribution                        *)
(* After each update has been compared with the specification's, the       *)
(* recorded distribution is taken over, so that rounding does not add up.  *)
(***************************************************************************)
EXTENDS Cov, Geno, Json, IOUtils

Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, s, ask, ev, errs
vars == <<rid, i, s, ask, ev, errs>>
C == Runs[rid].cfg
Ev == Runs[rid].ev
E == Ev[i]
Has(r, f) == f \in DOMAIN r
Chk(p, name, ok) == IF Prop # "ALL" /\ p # Prop THEN {} ELSE IF ok THEN {} ELSE {<<p, name>>}
In(f) == IF C.maximize THEN FNeg(f) ELSE f
Full == ~C.sep /\ ~C.vd
Tol == "1e-6"
Free == {k \in 1..C.dim : ~\E q \in 1..Len(C.fixed) : C.fixed[q][1] + 1 = k}

\* the recorded distribution, with the state that is carried along
Dist(e, old) ==
  [old EXCEPT !.m = e.xmean, !.sigma = e.sigma,
              !.cov = e.cov, !.sep = e.sepcov,
              !.ps = IF Has(e, "ps") THEN e.ps ELSE @, !.pc = IF Has(e, "pc") THEN e.pc ELSE @]
NewS(e) ==
  [m |-> e.xmean, sigma |-> e.sigma, cov |-> e.cov, sep |-> e.sepcov,
   ps |-> Zeros(C.dim), pc |-> Zeros(C.dim), v |-> IF C.vd THEN VdV(e.sepcov, e.fullcov) ELSE <<>>,
   lambda |-> e.lambda, niter |-> 0, dec |-> e.cov, deciter |-> 0, prev |-> e.xmean, ts |-> "0.0"]
None0 == [none |-> TRUE]

Init == rid \in 1..Len(Runs) /\ i = 1 /\ s = None0 /\ ask = None0 /\ ev = None0 /\ errs = {}

SameDist(e, t) == e.xmean = t.m /\ e.sigma = t.sigma /\ e.cov = t.cov /\ e.sepcov = t.sep

(* ------------------------------- the reports ------------------------------ *)
Valid(e) ==
     Chk("C21", "step-size is positive and finite", FIsFinite(e.sigma) /\ FLt("0.0", e.sigma))
  \cup Chk("C21", "mean is finite", \A k \in 1..C.dim : FIsFinite(e.xmean[k]))
  \cup (IF Full
        THEN Chk("C21", "covariance is symmetric", Len(e.cov) = C.dim /\ MClose(e.cov, MTrans(e.cov), "1e-9", "0.0"))
          \cup Chk("C21", "variances are positive", \A k \in 1..C.dim : FLt("0.0", e.cov[k][k]))
          \cup Chk("C21", "covariance is positive semi-definite",
                   LET w == MEigs(e.cov) IN FLe(FNeg("1e-9" ** VMax(w)), VMin(w)))
          \cup Chk("C21", "full covariance", e.fullcov = e.cov)
        ELSE Chk("C21", "variances are positive", Len(e.sepcov) = C.dim /\ \A k \in 1..C.dim : FLt("0.0", e.sepcov[k]))
          \cup (IF C.sep THEN Chk("C21", "full covariance", MClose(e.fullcov, MDiag(e.sepcov), "1e-12", "0.0"))
                ELSE Chk("C21", "full covariance", MClose(e.fullcov, MTrans(e.fullcov), "1e-12", "0.0")
                                                   /\ FLe("0.0", VMin(MEigs(e.fullcov))))))

Sd(e) == VSqrtEl([k \in 1..C.dim |-> e.fullcov[k][k]])
Derived(e) ==
  IF ~Has(e, "stds") THEN {}
  ELSE LET sd == Sd(e)
           want == VSub(Pheno(C, VAdd(e.xmean, sd)), Pheno(C, e.xmean))
           abs == [k \in 1..C.dim |-> FAbs(want[k])]
           scale == "1.0" ++ VMaxAbs(Pheno(C, e.xmean))
       IN Chk("C21", "standard deviations", VClose(e.stds, abs, "1e-9", scale))
          \cup Chk("C21", "errors are the standard deviations times the root of the step-size",
                   VClose(e.errors, VScale(FSqrt(e.sigma), e.stds), "1e-12", "0.0"))
          \cup Chk("C21", "correlations of pairs",
                   \A a, b \in 1..C.dim :
                      FClose(e.corrij[a][b], IF a = b THEN "1.0" ELSE e.fullcov[a][b] // (sd[a] ** sd[b]), "1e-9", "1.0"))
          \cup Chk("C21", "correlation matrix",
                   ~C.sep => \A a, b \in 1..C.dim : FClose(e.corr[a][b], e.fullcov[a][b] // (sd[a] ** sd[b]), "1e-9", "1.0"))

TRep ==
  /\ E.e = "rep" /\ i' = i + 1 /\ UNCHANGED <<rid, ask, ev>>
  /\ IF E.niter = 0
     THEN /\ s' = NewS(E)
          /\ errs' = Valid(E) \cup Derived(E)
               \cup Chk("C20", "a search starts with the identity covariance",
                        IF Full THEN MClose(E.cov, MDiag(Ones(C.dim)), "0.0", "0.0") ELSE E.sepcov = Ones(C.dim) \/ VClose(E.sepcov, Ones(C.dim), "0.0", "0.0"))
               \cup Chk("C20", "a search starts with zero evolution paths",
                        Has(E, "ps") => (VMaxAbs(E.ps) = "0.0" /\ VMaxAbs(E.pc) = "0.0"))
     ELSE /\ UNCHANGED s
          /\ errs' = Valid(E) \cup Derived(E)
               \cup Chk("C21", "the distribution does not change between update and report", SameDist(E, s) /\ E.niter = s.niter)

(* ------------------------------- the candidates --------------------------- *)
OnFree(u, v, scale) == \A k \in Free : FClose(u[k], v[k], Tol, scale)
GradCol == IF C.grad > 0 THEN {1} ELSE {}
TpaCols(t) == IF C.tpa = 2 /\ t.niter > 0 THEN {TpaIds(C)[1] + 1, TpaIds(C)[2] + 1} ELSE {}

\* gradient of the objective in the search representation
GradGp(m) ==
  LET e == GradEps(m) IN VDivEl(VSub(Pheno(C, VAdd(m, e)), Pheno(C, VSub(m, e))), VScale("2.0", e))
NumGrad(calls) ==
  LET e == GradEps(calls[1].x) IN [k \in 1..C.dim |-> (In(calls[k+1].f) -- In(calls[1].f)) // e[k]]
UserGrad(g) == IF C.maximize THEN VScale("-1.0", g) ELSE g

TAsk ==
  /\ E.e = "ask" /\ i' = i + 1 /\ UNCHANGED <<rid, ev>>
  /\ LET t == Dist(E, s)
         K == Consts(C, s.lambda)
         age == N(t.niter - t.deciter)
         upd == t.niter = 0 \/ ~C.lazy \/ FLt(K.lazy, age)
         sure == ~C.lazy \/ t.niter = 0 \/ ~FClose(K.lazy, age, "1e-9", "0.0")
         u == IF ~Full THEN FALSE ELSE IF sure THEN upd ELSE E.ueig_after
         t1 == IF u THEN [t EXCEPT !.dec = t.cov, !.deciter = t.niter] ELSE t
         scale == VMaxAbs(t.m) ++ t.sigma
         numgrad == C.grad = 1 /\ ~C.mt /\ Len(E.calls) = C.dim + 1
         g == VMulEl(IF C.grad = 2 THEN UserGrad(E.g) ELSE NumGrad(E.calls), GradGp(t.m))
         gok == (C.grad = 2 \/ numgrad) /\ ~C.vd
         tp == TpaIds(C)
         x1 == E.pop[tp[1] + 1]
         x2 == E.pop[tp[2] + 1]
         sh == VSub(t.m, t.prev)
         shok == \E k \in Free : FLt("1e-9" ** scale, FAbs(sh[k]))
         half == VScale("0.5", VSub(x1, x2))
     IN /\ s' = t1
        /\ ask' = [pop |-> E.pop, z |-> IF Has(E, "z") THEN E.z ELSE <<>>]
        /\ errs' =
             Chk("C24", "eigen-decomposition is refreshed when due", Full => E.ueig_after = u)
             \cup (IF ~gok THEN {} ELSE
                   Chk("C19", "user gradient is taken at the mean's phenotype", C.grad = 2 => VClose(E.gx, Pheno(C, t.m), "1e-9", scale))
                   \cup Chk("C19", "numerical gradient is taken around the mean's phenotype",
                            C.grad = 1 => VClose(E.calls[1].x, Pheno(C, t.m), "1e-9", scale))
                   \cup Chk("C19", "gradient point",
                            (\E k \in 1..C.dim : ~FEq(g[k], "0.0")) /\ (\A k \in 1..C.dim : FIsFinite(g[k]))
                             => LET p == GradPoint(C, t1, t1.dec, g)
                                IN (\A k \in 1..C.dim : FIsFinite(p[k])) =>
                                     \A k \in Free : FClose(E.pop[1][k], p[k], IF C.gp = "none" THEN Tol ELSE "1e-4", scale)))
             \cup (IF TpaCols(t) = {} THEN {} ELSE
                   Chk("C19", "two points are points, even if the mean has not moved",
                       \A k \in 1..C.dim : (FIsFinite(t.m[k]) /\ FIsFinite(t.prev[k])) => FIsFinite(x1[k]) /\ FIsFinite(x2[k])))
             \cup (IF TpaCols(t) = {} \/ ~shok THEN {} ELSE
                   Chk("C19", "two points are symmetric about the mean", OnFree(VScale("0.5", VAdd(x1, x2)), t.m, scale))
                   \cup Chk("C19", "two points lie along the last shift of the mean, the first one ahead",
                            \A a, b \in Free : FClose(half[a] ** sh[b], half[b] ** sh[a], "1e-5", VNorm(half) ** VNorm(sh))
                                               /\ FLe("0.0", VDot(half, sh)))
                   \cup Chk("C19", "distance of the two points",
                            (Has(E, "rz") /\ ~C.vd) => OnFree(half, TpaStep(C, t1, t1.dec, t.prev, E.rz), VNorm(half) ++ ("1e-6" ** scale))))

(* Poking: the user sets the mean or the step-size between iterations *)
TPoke ==
  /\ E.e = "poke" /\ i' = i + 1 /\ UNCHANGED <<rid, ask, ev>>
  /\ errs' = {}
  /\ s' = IF E.what = "sigma" THEN [s EXCEPT !.sigma = E.v] ELSE [s EXCEPT !.m = [k \in 1..C.dim |-> E.v]]

(* -------------------------------- evaluation ------------------------------- *)
TEval ==
  /\ E.e = "eval" /\ i' = i + 1 /\ UNCHANGED <<rid, s, ask>>
  /\ LET n == s.lambda
         nre == Len(E.calls) - n
         f1 == [k \in 1..n |-> E.cand[k].f]
     IN /\ ev' = [f1 |-> f1, nre |-> nre,
                  f2 |-> [k \in 1..n |-> IF k <= nre THEN In(E.calls[n + k].f) ELSE f1[k]]]
        /\ errs' = IF ~C.uh THEN {} ELSE
             Chk("C14", "number of re-evaluations", nre \in ReevNums(n))
             \cup Chk("C14", "re-evaluated points are perturbed candidates",
                  (nre >= 1 /\ C.gp = "none" /\ C.tf = "") =>
                   \A k \in 1..nre :
                     LET d == VSub(E.calls[n + k].x, ask.pop[k])
                         sz == "1e-7" ** s.sigma
                     IN /\ VMaxAbs(d) # "NaN" /\ FLe(VMaxAbs(d), ("10.0" ** sz) ++ ("1e-14" ** VMaxAbs(ask.pop[k])))
                        /\ FLt("1e-12" ** VMaxAbs(ask.pop[k]), sz) => FLt("0.0", VMaxAbs(d)))

(* --------------------------------- update ---------------------------------- *)
UhOk == C.uh /\ C.elit = 0 /\ ~C.mt /\ Distinct(ev.f1) /\ Distinct(ev.f2)
UhLevel == Uncertainty(ev.f1, ev.f2, ev.nre)
AlphaUh == "1.0" ++ ("2.0" // (N(C.dim) ++ "10.0"))

Sample(e, t, z) ==
  IF C.vd THEN LET nv == VDot(t.v, t.v)
                   f == (FSqrt("1.0" ++ nv) -- "1.0") // nv
                   y == VAdd(z, VScale(f ** VDot(t.v, z), t.v))
               IN VAdd(t.m, VScale(t.sigma, VMulEl(t.sep, y)))
  ELSE IF C.sep THEN VAdd(t.m, VScale(t.sigma, VMulEl(VSqrtEl(t.sep), z)))
  ELSE VAdd(t.m, VScale(t.sigma, MVMul(e.eigvec, VMulEl(VSqrtEl([k \in 1..C.dim |-> FMax("0.0", e.eigval[k])]), z))))

TTell ==
  /\ E.e = "tell" /\ i' = i + 1 /\ UNCHANGED <<rid, ask, ev>>
  /\ LET K == Consts(C, s.lambda)
         ranked == E.cand
         m1 == NewMean(K, ranked)
         y == VScale("1.0" // s.sigma, VSub(m1, s.m))
         ps1 == NewPs(C, K, s, s.dec, y)
         hs == Hsigs(C, K, ps1, s.niter)
         ts1 == IF C.tpa = 2 /\ s.niter > 0 THEN TpaNew(C, s.ts, ranked) ELSE s.ts
         sg == IF C.tpa = 2 THEN TpaSigma(K, s, s.niter, ts1) ELSE CsaSigma(K, s, ps1)
         sgs == IF ~C.uh THEN {sg} ELSE IF ~UhOk THEN {sg, sg ** AlphaUh}
                ELSE IF FLt("0.0", UhLevel) THEN {sg ** AlphaUh} ELSE {sg}
         \* with a choice of hsig, the one the recorded path agrees with
         hOk(h) == ~Has(E, "pc") \/ VClose(E.pc, NewPc(K, s, y, h), Tol, VNorm(s.pc) ++ "1e-3")
         h == IF \E q \in hs : hOk(q) THEN CHOOSE q \in hs : hOk(q) ELSE CHOOSE q \in hs : TRUE
         pc1 == NewPc(K, s, y, h)
         vd1 == VdStep(C, K, s, ranked, pc1, h)
         sane == \A k \in 1..C.dim : FIsFinite(m1[k]) /\ FIsFinite(ps1[k])
         mscale == VMaxAbs(s.m) ++ s.sigma
         cols == {k \in 1..Len(ask.pop) : k \notin (GradCol \cup TpaCols(s))}
         id0 == [k \in 1..Len(ranked) |-> ranked[k].id + 1]
     IN /\ errs' = IF ~sane THEN {} ELSE
             Chk("C20", "mean", VClose(E.xmean, m1, Tol, mscale))
             \cup Chk("C20", "evolution path of the step-size", Has(E, "ps") => VClose(E.ps, ps1, Tol, VNorm(s.ps) ++ "1e-3"))
             \cup Chk("C20", "evolution path of the covariance", Has(E, "pc") => \E q \in hs : hOk(q))
             \cup Chk("C20", "step-size", \E q \in (IF C.uh THEN {sg, sg ** AlphaUh} ELSE {sg}) : FClose(E.sigma, q, Tol, "0.0"))
             \cup Chk("C20", "covariance",
                      CASE C.vd -> VClose(E.sepcov, vd1.sep, Tol, "0.0") /\ MClose(E.fullcov, VdFull(vd1.sep, vd1.v), Tol, "0.0")
                        [] C.sep -> VClose(E.sepcov, IF C.upd = "acma" THEN AcmaCov(C, K, s, s.dec, ranked, pc1) ELSE CmaCov(C, K, s, ranked, pc1, h), Tol, "0.0")
                        [] OTHER -> MClose(E.cov, IF C.upd = "acma" THEN AcmaCov(C, K, s, s.dec, ranked, pc1) ELSE CmaCov(C, K, s, ranked, pc1, h), Tol, "0.0"))
             \cup Chk("C19", "two-point step-size", C.tpa = 2 => \E q \in (IF C.uh THEN {sg, sg ** AlphaUh} ELSE {sg}) : FClose(E.sigma, q, Tol, "0.0"))
             \cup (IF ~C.uh THEN {} ELSE
                   Chk("C14", "step-size grows exactly when the ranks are uncertain",
                       (UhOk => ~FClose(UhLevel, "0.0", "1e-9", "1e-9")) => \E q \in sgs : FClose(E.sigma, q, Tol, "0.0"))
                   \cup Chk("C14", "ranking by the sum of both ranks",
                       UhOk => /\ \A k \in 1..(Len(ranked) - 1) : Len(ranked) <= 16 => ~Before(ev.f1, ev.f2, ev.nre, id0[k + 1], id0[k])
                               /\ LET r1 == Rank0(ev.f1)
                                      r2 == Rank0(ev.f2)
                                  IN \A a, b \in 1..Len(ranked) : a < b => r1[id0[a]] + r2[id0[a]] <= r1[id0[b]] + r2[id0[b]]))
             \cup Valid(E)
             \cup (IF ~Full THEN {} ELSE
                   Chk("C21", "eigenvalues and eigenvectors are those of the covariance",
                       /\ MClose(MMul(E.eigvec, MMul(MDiag(E.eigval), MTrans(E.eigvec))), s.dec, "1e-9", "0.0")
                       /\ MClose(MMul(E.eigvec, MTrans(E.eigvec)), MDiag(Ones(C.dim)), "1e-9", "1.0"))
                   \cup Chk("C21", "extreme eigenvalues", FEq(E.mineig, VMin(E.eigval)) /\ FEq(E.maxeig, VMax(E.eigval)))
                   \cup Chk("C21", "inverse square root",
                       MClose(MMul(E.csqinv, MMul(s.dec, E.csqinv)), MDiag(Ones(C.dim)), "1e-6", "1.0")))
             \cup (IF ~C.sep THEN {} ELSE
                   Chk("C21", "inverse square root", VClose(VMulEl(VMulEl(E.sepcsqinv, E.sepcsqinv), s.sep), Ones(C.dim), "1e-9", "1.0"))
                   \cup Chk("C21", "extreme eigenvalues", FEq(E.mineig, VMin(E.sepcov)) /\ FEq(E.maxeig, VMax(E.sepcov))))
             \cup Chk("C24", "candidates are the seeded draws transformed by the current distribution",
                      ask.z # <<>> => (Len(ask.z) = Len(ask.pop) /\ \A k \in cols : OnFree(ask.pop[k], Sample(E, s, ask.z[k]), mscale)))
        /\ s' = [Dist(E, s) EXCEPT !.prev = s.m, !.ts = ts1, !.niter = @ + 1,
                                   !.ps = IF Has(E, "ps") THEN E.ps ELSE ps1, !.pc = IF Has(E, "pc") THEN E.pc ELSE pc1,
                                   !.v = IF C.vd /\ sane THEN vd1.v ELSE @]

(* ---------------------------------- the end -------------------------------- *)
\* expected distance to the minimum: n / (10 (sqrt(lambda/4 + 1/2) - 1)) * sigma * sqrt(g' C g), g the gradient at the mean
Edm(t, g) ==
  LET q == IF C.vd THEN VDot(g, MVMul(E.fullcov, g)) ELSE IF C.sep THEN VDot(g, VMulEl(t.sep, g)) ELSE VDot(g, MVMul(t.dec, g))
  IN (N(C.dim) // ("10.0" ** (FSqrt((N(t.lambda) // "4.0") ++ "0.5") -- "1.0"))) ** (t.sigma ** FSqrt(q))
TEnd ==
  /\ E.e = "end" /\ i' = i + 1 /\ UNCHANGED <<rid, s, ask, ev>>
  /\ LET ok == C.edm /\ C.strat = "single" /\ ~C.mt /\ Has(E, "xmean") /\ Has(s, "m") /\ (C.grad = 2 => Has(E, "g")) /\ (C.grad # 2 => Len(E.calls) = C.dim + 1)
         g == VMulEl(IF C.grad = 2 THEN UserGrad(E.g) ELSE NumGrad(E.calls), GradGp(s.m))
         want == Edm(s, g)
     IN errs' = IF ~ok THEN {} ELSE
          Chk("C21", "expected distance to the minimum",
              (FIsFinite(want) /\ \A k \in 1..C.dim : FIsFinite(g[k])) => FClose(E.edm, want, IF C.gp = "none" /\ C.tf = "" THEN Tol ELSE "1e-4", "1e-300"))

TSkip == E.e = "plot" /\ i' = i + 1 /\ errs' = {} /\ UNCHANGED <<rid, s, ask, ev>>

Next == i <= Len(Ev) /\ (TRep \/ TAsk \/ TPoke \/ TEval \/ TTell \/ TEnd \/ TSkip)
OK == errs = {}
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, run |-> Runs[rid].run, i |-> i, errs |-> errs]
=============================================================================
