----------------------------- MODULE SurrTrace ------------------------------
(***************************************************************************)
(* Recorded surrogate-assisted optimizations against Surr (C16): each      *)
(* event is a progress report with the calls of the objective (calls) and  *)
(* of the model (ops: t = train, p = predict, with the points and values)  *)
(* since the previous one, the population and the training set.            *)
(***************************************************************************)
EXTENDS Geno, Surr, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, trained, smooth, wasReal, low, errs
vars == <<rid, i, trained, smooth, wasReal, low, errs>>
R == Runs[rid]
C == R.cfg
E == R.ev[i]
P == R.ev[i - 1]
Chk(name, ok) == IF ok THEN {} ELSE {<<"C16", name>>}
Same(a, b) == a = b \/ FEq(a, b)
Val(f) == IF C.maximize THEN FNeg(f) ELSE f
Fs(s) == [j \in 1..Len(s) |-> s[j].f]
Sorted(v) == [j \in 1..Len(v) |-> v[SortPerm(v)[j]]]
SameVals(u, v) == Len(u) = Len(v) /\ LET a == Sorted(u)
                                         b == Sorted(v)
                                     IN \A j \in 1..Len(a) : Same(a[j], b[j])
SamePts(s, t) == SameVals(Fs(s), Fs(t)) /\ \A j \in 1..Len(s) : \E k \in 1..Len(t) : t[k].x = s[j].x /\ Same(t[k].f, s[j].f)
\* a stored point and the call that gave its value
Is(p, call) == Same(p.f, Val(call.f)) /\ LET q == Pheno(C, p.x) IN VClose(q, call.x, "1e-9", FAdd("1.0", FAdd(VMaxAbs(q), VMaxAbs(p.x))))
CallVals == [j \in 1..Len(E.calls) |-> Val(E.calls[j].f)]
RealPoint(p) == \E k \in 1..Len(E.calls) : Is(p, E.calls[k])
Ops(o) == {k \in 1..Len(E.ops) : E.ops[k].op = o}

(* the proportion of pairs of real points that a model orders the wrong way *)
Pairs(n) == {pr \in (1..n) \X (1..n) : pr[1] < pr[2]}
Wrong(pts, pr) == {q \in Pairs(Len(pts)) : (FLt(pts[q[1]].f, pts[q[2]].f) /\ FLt(pr[q[2]], pr[q[1]])) \/ (FLt(pts[q[2]].f, pts[q[1]].f) /\ FLt(pr[q[1]], pr[q[2]]))}
Tied(pts, pr) == {q \in Pairs(Len(pts)) : Same(pts[q[1]].f, pts[q[2]].f)}
Share(k, n) == FDiv(FMul("2.0", FFromInt(k)), FFromInt(n * (n - 1)))
\* the error over pts, predicted by one of the predictions made in this iteration
ErrorOK(e, pts) ==
  IF Len(pts) < 2 THEN FLe("0.0", e) /\ FLe(e, "1.0")
  ELSE \E k \in Ops("p") :
         LET o == E.ops[k].p
             at(x) == CHOOSE j \in 1..Len(o) : o[j].x = x
             pr == [j \in 1..Len(pts) |-> o[at(pts[j].x)].f]
         IN /\ Len(o) = Len(pts)
            /\ \A j \in 1..Len(pts) : \E q \in 1..Len(o) : o[q].x = pts[j].x
            /\ LET w == Cardinality(Wrong(pts, pr))
                   t == Cardinality(Tied(pts, pr))
               IN FLe(FSub(Share(w, Len(pts)), "1e-12"), e) /\ FLe(e, FAdd(Share(w + t, Len(pts)), "1e-12"))

Iteration == i > 1 /\ E.e = "rep" /\ E.niter = P.niter + 1
Base == Start(C.kind, P.niter, P.tset)
IsReal == Real(C.kind, P.exploit, P.niter, P.nsteps, Base, P.l)
Lam == P.plambda
K == NCalls(C.kind, IsReal, Lam, IF C.kind = "acm" THEN E.lprime ELSE 0)
Tested == IF C.kind = "acm" /\ ~IsReal THEN TRUE ELSE IsReal /\ P.niter # 0 /\ Ready(Base, P.l)
Fresh == SubSeq(E.tset, Len(E.tset) - Min2(Len(E.tset), Len(E.calls)) + 1, Len(E.tset))
Shape(o) == IF C.sep \/ C.vd THEN o.rows = C.dim /\ o.cols = 1 ELSE o.rows = C.dim /\ o.cols = C.dim
NewSmooth == IF Tested THEN FAdd(FMul("0.8", smooth), FMul("0.2", E.terr)) ELSE smooth
Life(s) == Max2(1, FToInt(FFloor(FMul(FDiv(FSub("0.45", s), "0.45"), "20.0")))) + 1
Reached == FLe(E.best.f, C.ftarget)

(* the whole population really evaluated *)
CheckReal ==
       Chk("a really evaluated iteration calls the objective once per candidate", Len(E.calls) = Lam)
  \cup Chk("values of the population are not those of the calls", SameVals(Fs(E.pop), CallVals) /\ \A j \in 1..Len(E.pop) : RealPoint(E.pop[j]))
  \cup Chk("population is not ordered by value", \A j \in 1..(Len(E.pop) - 1) : ~FLt(E.pop[j + 1].f, E.pop[j].f))
(* the whole population predicted *)
CheckPredicted ==
  LET last == CHOOSE k \in Ops("p") : \A q \in Ops("p") : q <= k
  IN   Chk("the objective is called in an iteration left to the surrogate", Len(E.calls) = 0)
  \cup Chk("values of the population are not the predictions", Ops("p") # {} /\ Len(E.pop) = Lam /\ SamePts(E.pop, E.ops[last].p))
  \cup Chk("population is not ordered by prediction", \A j \in 1..(Len(E.pop) - 1) : ~FLt(E.pop[j + 1].f, E.pop[j].f))
(* pre-selection *)
CheckSelected ==
  LET n == Len(E.calls)
      has(o) == \A j \in 1..Len(E.pop) : \E q \in 1..Len(o) : o[q].x = E.pop[j].x
      screen == {k \in Ops("p") : Len(E.ops[k].p) = E.prelambda /\ has(E.ops[k].p)}
      scr == E.ops[CHOOSE k \in screen : TRUE].p
      idx(x) == CHOOSE j \in 1..Len(scr) : scr[j].x = x
      pr(j) == scr[idx(E.pop[j].x)].f
  IN   Chk("number of really evaluated candidates", n = K)
  \cup Chk("population size", Len(E.pop) = Lam)
  \cup Chk("population is not one of the screened candidates", screen # {})
  \cup Chk("a candidate is selected twice", Cardinality({E.pop[j].x : j \in 1..Len(E.pop)}) = Len(E.pop))
  \cup Chk("values of the first candidates are not those of the calls", SameVals([j \in 1..n |-> E.pop[j].f], CallVals) /\ \A j \in 1..n : RealPoint(E.pop[j]))
  \cup Chk("really evaluated candidates are not ordered by value", \A j \in 1..(n - 1) : ~FLt(E.pop[j + 1].f, E.pop[j].f))
  \cup Chk("the others are not ordered by prediction", screen # {} => \A j \in (n + 1)..(Lam - 1) : ~FLt(pr(j + 1), pr(j)))
  \cup Chk("the candidate predicted best is not evaluated", screen # {} => \E j \in 1..n : \A q \in 1..Len(scr) : ~FLt(scr[q].f, pr(j)))
CheckIteration ==
       Chk("evaluations reported are not the calls made", E.fevals = P.fevals + Len(E.calls))
  \cup (IF IsReal THEN CheckReal ELSE IF C.kind = "acm" THEN CheckSelected ELSE CheckPredicted)
  \cup Chk("size of the training set", Len(E.tset) = Len(Push(Base, E.calls, P.l)))
  \cup Chk("the training set loses or changes a recent point", LET keep == Len(E.tset) - Len(Fresh) IN
              Len(E.tset) = Len(Push(Base, E.calls, P.l)) => SubSeq(E.tset, 1, keep) = SubSeq(Base, Len(Base) - keep + 1, Len(Base)))
  \cup Chk("the training set does not hold the latest real points and values",
           \A j \in 1..Len(Fresh) : Is(Fresh[j], E.calls[Len(E.calls) - Len(Fresh) + j]))
  \cup Chk("the model is not trained on the training set", Train(C.kind, IsReal, E.tset, P.l) =>
              \E k \in Ops("t") : E.ops[k].p = E.tset)
  \cup Chk("the model is trained on something else than a full training set", \A k \in Ops("t") : Ready(E.ops[k].p, P.l) /\ E.ops[k].p = E.tset)
  \cup Chk("the scaling given to the model does not fit the covariance", \A k \in 1..Len(E.ops) : Shape(E.ops[k]))
  \cup Chk("a model that was never trained is used", \A k \in Ops("p") : trained \/ \E q \in Ops("t") : q < k)
  \cup Chk("test error", IF Tested THEN ErrorOK(E.terr, IF IsReal THEN E.pop ELSE SubSeq(E.pop, 1, Len(E.calls)))
                         ELSE Same(E.terr, IF C.kind = "acm" /\ P.niter = 0 THEN "0.0" ELSE P.terr))
  \cup Chk("training error", C.kind = "acm" /\ Train(C.kind, IsReal, E.tset, P.l) => ErrorOK(E.trerr, E.tset))
  \cup Chk("life length", IF C.kind = "simple" /\ C.auto /\ Tested
                          THEN E.nsteps \in {Life(FAdd(NewSmooth, "1e-9")), Life(FSub(NewSmooth, "1e-9"))}
                          ELSE E.nsteps = P.nsteps)
  \cup Chk("best candidate is not the best real one", (IsReal \/ C.kind = "acm") => \E j \in 1..Len(CallVals) : Same(E.best.f, CallVals[j]) /\ \A q \in 1..Len(CallVals) : ~FLt(CallVals[q], E.best.f))
  \cup Chk("best candidate is not a really evaluated point", (IsReal \/ C.kind = "acm") => RealPoint(E.best))
  \cup Chk("best-seen value is not the best real one", C.kind = "acm" => Same(E.bseen.f, FMin(low, VMin(CallVals))))
  \cup Chk("an iteration after the target was reached", ~(wasReal /\ P.niter > 0 /\ C.target /\ FLe(P.best.f, C.ftarget)))
  \cup (IF "expect" \in DOMAIN C /\ P.niter < Len(C.expect) THEN Chk("calls of the iteration differ from those of the model", Len(E.calls) = C.expect[P.niter + 1]) ELSE {})

Init == rid \in 1..Len(Runs) /\ i = 1 /\ trained = FALSE /\ smooth = "0.5" /\ wasReal = FALSE /\ low = "Infinity" /\ errs = {}
Next ==
  /\ i <= Len(R.ev) /\ i' = i + 1 /\ UNCHANGED rid
  /\ IF Iteration
     THEN /\ trained' = (trained \/ Ops("t") # {})
          /\ smooth' = IF C.kind = "acm" THEN smooth ELSE NewSmooth
          /\ wasReal' = (IsReal \/ C.kind = "acm")       \* the best candidate's value is real
          /\ low' = IF Len(CallVals) = 0 THEN low ELSE FMin(low, VMin(CallVals))
          /\ errs' = CheckIteration
     ELSE /\ UNCHANGED <<trained, smooth>>
          /\ wasReal' = (E.e = "end" /\ wasReal)
          /\ low' = IF E.e = "end" THEN low ELSE IF Len(CallVals) > 0 THEN VMin(CallVals) ELSE "Infinity"
          /\ errs' = (IF E.e = "end" /\ C.single THEN
                           Chk("calls after the last report", Len(E.calls) = 0)
                      \cup Chk("stopped on a target that was not really reached, or is disabled", E.status = 10 => (wasReal /\ C.target /\ FLe(E.best.f, C.ftarget)))
                      \cup Chk("evaluations of the result", E.fevals = P.fevals)
                     ELSE {})
                     \cup (IF i = 1 /\ "again" \in DOMAIN R THEN Chk("the same seed gives another run", R.again) ELSE {})
OK == errs = {}
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, run |-> R.run, i |-> i, errs |-> errs]
=============================================================================
