--------------------------------- MODULE Cma ---------------------------------
(***************************************************************************)
(* The optimizer's life cycle: initial evaluation, the ask / eval / tell   *)
(* loop with its stop decision, elitist re-injection and elitist restart,  *)
(* IPOP and BIPOP restarts.  Objective values enter as parameters of the   *)
(* step operators, so that the same operators serve                        *)
(*   - MCCma, where TLC chooses every value (exhaustive model checking and *)
(*     generation of behaviours replayed into the real code), and          *)
(*   - CmaTrace, where they come from a recorded execution of the code.    *)
(*                                                                         *)
(* c : configuration    s : state of the current run   g : state across    *)
(* the runs of a restart strategy.                                         *)
(***************************************************************************)
EXTENDS CmaOps

Cand(f) == [set |-> TRUE, f |-> f]

NewRun(c, lambda, sigma0, maxfevals) ==
  [lambda |-> lambda, sigma0 |-> sigma0, maxfevals |-> maxfevals,
   niter |-> 0, nevals |-> 0, pop |-> <<>>, hist |-> <<>>, khist |-> <<>>, bf |-> <<>>, med |-> <<>>,
   best |-> "NaN", bseen |-> None, wseen |-> None, bseeniter |-> 0, initial |-> None]

NewG(c) == [total |-> 0, r |-> 0, kind |-> "large", lambdal |-> c.lambda, b0 |-> 0, b1 |-> 0,
            best |-> None, elitrestart |-> FALSE, aborted |-> FALSE]

(* -------------------------------- begin ---------------------------------- *)
NeedsInitial(c, g) == c.elit \in {1, 2} \/ c.inifv \/ g.elitrestart
BeginStep(c, s, v) == [s EXCEPT !.initial = Cand(v), !.bseen = Cand(v), !.nevals = @ + 1, !.best = v]

(* numerical gradient: one evaluation per dimension plus one *)
GradEvals(c) == c.dim + 1
AskEvals(c) == IF c.grad = 1 THEN GradEvals(c) ELSE 0
EdmEvals(c) == IF c.edm /\ c.grad # 2 THEN GradEvals(c) ELSE 0

(* --------------------------------- eval ---------------------------------- *)
InjectRef(c, s, g) ==
  IF s.niter = 0 THEN None
  ELSE IF c.elit = 2 \/ (c.elit = 3 /\ g.elitrestart) THEN s.initial
  ELSE IF c.elit = 1 THEN s.bseen
  ELSE None

(* populations that evaluation may leave behind, given the values `vals` *)
EvalPops(c, s, g, vals) ==
  LET pop == [i \in 1..Len(vals) |-> Cand(vals[i])]
      ref == InjectRef(c, s, g)
  IN IF ref.set /\ NeedInject(pop, ref)
     THEN {[pop EXCEPT ![k] = ref] : k \in InjectSlots(pop, ref)}
     ELSE {pop}

EvalStep(c, s, pop, nreev) == [s EXCEPT !.pop = pop, !.nevals = @ + Len(pop) + nreev]

(* --------------------------------- tell ---------------------------------- *)
(* sorted: the population in rank order *)
TellStep(c, s, sorted) ==
  LET cap == HistCap(c.dim, s.lambda, c.maxhist)
      b == sorted[1]
      w == sorted[Len(sorted)]
  IN [s EXCEPT !.pop = sorted,
               !.best = b.f,
               !.hist = Push(@, b.f, cap),
               !.khist = Push(@, sorted[1 + KCandIdx(s.lambda)].f, cap),
               !.bf = Push(@, b.f, 20),
               !.med = Push(@, MedianOfSorted(sorted), MedCap(s.niter, c.dim, Len(sorted))),
               !.bseen = IF Better(b, s.bseen) THEN b ELSE @,
               !.bseeniter = IF Better(b, s.bseen) THEN s.niter ELSE @,
               !.wseen = IF Worse(w, s.wseen) THEN w ELSE @]

IncStep(s) == [s EXCEPT !.niter = @ + 1]

(* --------------------------------- stop ---------------------------------- *)
(* num: truth of the criteria that depend on the search distribution *)
CritTruth(c, s, num) ==
  [k \in Codes |->
     CASE k = TOLHISTFUN -> CritTolHistFun(c, s)
       [] k = EQUALFUNVALS -> CritEqualFunVals(c, s)
       [] k = STAGNATION -> CritStagnation(c, s)
       [] k = AUTOMAXITER -> CritAutoMaxIter(c, s)
       [] k = MAXFEVALS -> CritMaxFEvals(c, s, s.maxfevals)
       [] k = MAXITER -> CritMaxIter(c, s)
       [] k = FTARGET -> CritFTarget(c, s)
       [] OTHER -> num[k]]
StopStatuses(c, s, num) == IF s.niter = 0 THEN {CONT} ELSE StatusFrom(1, c.crit, CritTruth(c, s, num))

(* ------------------------------- restarts -------------------------------- *)
ElitRestartNeeded(c, s, g) ==
  c.elit = 3 /\ ~g.aborted /\ s.bseen.set /\ FLt(s.bseen.f, s.best) /\ s.niter - s.bseeniter >= 3

Capture(s, g) ==
  IF g.best.set = FALSE \/ FLt(s.best, g.best.f)
  THEN [set |-> TRUE, f |-> s.best, niter |-> s.niter, nevals |-> s.nevals, lambda |-> s.lambda]
  ELSE g.best

(* IPOP: what follows the end of a run *)
IpopOver(c, g) == \/ g.aborted
                  \/ g.r + 1 >= c.restarts
                  \/ (c.maxfevals > 0 /\ g.total >= c.maxfevals)
IpopNextLambda(s) == 2 * s.lambda

(* BIPOP: budgets are counted in iterations times population size.  A large  *)
(* run is followed by small runs until they have consumed as much, then by   *)
(* the next large run with twice the population.                             *)
BipopCharge(s, g) ==
  IF g.kind = "large" THEN [g EXCEPT !.b0 = @ + s.niter * s.lambda] ELSE [g EXCEPT !.b1 = @ + s.niter * s.lambda]
BipopNext(c, g) ==      \* g after charging
  IF g.aborted THEN "over"
  ELSE IF g.kind = "large" /\ g.r + 1 >= c.restarts THEN "over"
  ELSE IF g.b0 > g.b1 THEN "small"
  ELSE "large"
SmallLambdaOk(c, g, lam) ==
  LET def == FFromInt(c.lambda)
      q == FDiv(FMul("0.5", FFromInt(g.lambdal)), def)
      lo == FMul(def, FMin("1.0", q))
      hi == FMul(def, FMax("1.0", q))
  IN FLe(FFloor(lo), FFromInt(lam)) /\ FLe(FFromInt(lam), FCeil(hi))
SmallSigmaOk(sig) == FLe("0.0199999", sig) /\ FLe(sig, "2.0000001")
SmallMaxFevals(g) == g.b0 \div 2

(* what follows a run that stopped: the elitist restart, the next run of a   *)
(* restart strategy, or the end                                              *)
AfterStop(C, st, gg) ==
  LET g1 == gg
      g2 == [g1 EXCEPT !.best = Capture(st, g1)]
  IN IF ElitRestartNeeded(C, st, g1)
     THEN [ph |-> "start", s |-> [NewRun(C, st.lambda, st.sigma0, st.maxfevals) EXCEPT !.nevals = g1.total + EdmEvals(C)],
           g |-> [g1 EXCEPT !.elitrestart = TRUE]]
     ELSE IF C.strat = "single" THEN [ph |-> "final", s |-> [st EXCEPT !.nevals = @ + EdmEvals(C)], g |-> g1]
     ELSE IF C.strat = "ipop" THEN
       LET g3 == [g2 EXCEPT !.best.nevals = IF Capture(st, g1) = g1.best THEN @ ELSE @ + EdmEvals(C)]
           g4 == [g3 EXCEPT !.total = @ + EdmEvals(C)]
       IN IF IpopOver(C, g4) THEN [ph |-> "final", s |-> st, g |-> g3]
          ELSE [ph |-> "start", s |-> NewRun(C, IpopNextLambda(st), C.sigma0, C.maxfevals), g |-> [g3 EXCEPT !.r = @ + 1]]
     ELSE
       LET g3 == BipopCharge(st, [g2 EXCEPT !.best.nevals = IF Capture(st, g1) = g1.best THEN @ ELSE @ + EdmEvals(C)])
           nx == BipopNext(C, g3)
       IN IF nx = "over" THEN [ph |-> "final", s |-> st, g |-> g3]
          ELSE IF nx = "small" THEN [ph |-> "start", s |-> NewRun(C, 0, "0.0", SmallMaxFevals(g3)), g |-> [g3 EXCEPT !.kind = "small"]]
          ELSE [ph |-> "start", s |-> NewRun(C, 2 * g3.lambdal, C.sigma0, C.maxfevals),
                g |-> [g3 EXCEPT !.kind = "large", !.lambdal = 2 * @, !.r = @ + 1]]

=============================================================================
