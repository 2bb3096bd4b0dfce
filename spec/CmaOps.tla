------------------------------- MODULE CmaOps -------------------------------
(***************************************************************************)
(* Pure operators of the optimizer's life cycle: elitist re-injection,     *)
(* ranking, best/worst bookkeeping, histories, stopping criteria,          *)
(* uncertainty handling ranks.  Objective values are compared with F64's   *)
(* operators, which accept both doubles (recorded traces) and small        *)
(* integers (model checking).                                              *)
(***************************************************************************)
EXTENDS F64, FiniteSets, TLC

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

Front(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
LastN(s, n) == SubSeq(s, Max2(1, Len(s) - n + 1), Len(s))

(* ------------------------------ population ------------------------------ *)
Vals(pop) == [i \in 1..Len(pop) |-> pop[i].f]
CountLt(pop, ref) == CountLess(Vals(pop), ref)

(* Re-injection of a reference solution: only when fewer than half of the   *)
(* population improves on it; the reference then takes the place of one     *)
(* candidate that is not better than it (MustNotLose), here the worst.      *)
NeedInject(pop, ref) == CountLt(pop, ref.f) < Len(pop) \div 2

(* The set of populations re-injection may produce: any one candidate that   *)
(* does not improve on the reference gives way to it.                        *)
InjectSlots(pop, ref) == {i \in 1..Len(pop) : ~FLt(pop[i].f, ref.f)}

(* stable sort by value: position p holds the p-th smallest, ties by index *)
StableSort(pop) == LET q == SortPerm(Vals(pop)) IN [p \in 1..Len(pop) |-> pop[q[p]]]

Sorted(pop) == \A i \in 1..(Len(pop)-1) : ~FLt(pop[i+1].f, pop[i].f)

(* ------------------------- best / worst bookkeeping ---------------------- *)
None == [set |-> FALSE]
Better(c, d) == d.set = FALSE \/ FLt(c.f, d.f)
Worse(c, d)  == d.set = FALSE \/ FLt(d.f, c.f)

\* ceil(0.1 + lambda/4): lambda = 4q+r  ->  q + 1 for every r in 0..3 (0.1, 0.35, 0.6, 0.85)
KCandIdx(lambda) == Min2(lambda - 1, 1 + (lambda \div 4) + 1)    \* 0-based index into the sorted population
HistCap(dim, lambda, maxhist) == IF maxhist > 0 THEN maxhist ELSE 10 + ((30*dim) \div lambda)
HistThresh(dim, lambda, maxhist) == Min2(HistCap(dim, lambda, maxhist), 10 + ((30*dim) \div lambda))

MedianOfSorted(pop) ==
  LET n == Len(pop) IN
  IF n % 2 = 0 THEN FDiv(FAdd(pop[n \div 2].f, pop[(n \div 2) + 1].f), "2.0") ELSE pop[(n \div 2) + 1].f

MedianSeq(s) ==
  LET n == Len(s) IN
  IF n % 2 = 0 THEN FDiv(FAdd(NthSmallest(s, n \div 2), NthSmallest(s, (n \div 2) + 1)), "2.0")
  ELSE NthSmallest(s, (n \div 2) + 1)

MedCap(niter, dim, lambda) == FToInt(FCeil(FAdd(FAdd(FMul("0.2", FFromInt(niter)), "120.0"), FDiv(FFromInt(30*dim), FFromInt(lambda)))))

Push(s, v, cap) == LET t == Append(s, v) IN IF Len(t) > cap THEN Tail(t) ELSE t

(* --------------------------- stopping criteria --------------------------- *)
CONT == 0
CONDITIONCOV == -15   TOLUPSIGMA == -13   TOLHISTFUN == 1   TOLX == 2   NOEFFECTAXIS == 3   NOEFFECTCOOR == 4
EQUALFUNVALS == 5   STAGNATION == 6   AUTOMAXITER == 7   MAXFEVALS == 8   MAXITER == 9   FTARGET == 10
\* order in which the criteria are consulted: the first that holds gives the status
Prio == <<CONDITIONCOV, TOLUPSIGMA, TOLHISTFUN, TOLX, NOEFFECTAXIS, NOEFFECTCOOR, EQUALFUNVALS, STAGNATION,
          AUTOMAXITER, MAXFEVALS, MAXITER, FTARGET>>
Codes == {Prio[i] : i \in 1..Len(Prio)}

AutoMaxIterThresh(dim, lambda, vd) ==
  LET t == FAdd("100.0", FDiv(FMul("50.0", FFromInt((dim+3)*(dim+3))), FSqrt(FFromInt(lambda))))
  IN IF vd /\ dim < 10 THEN FMul(t, "1000.0") ELSE t

MaxOf(s) == NthSmallest(s, Len(s))
MinOf(s) == NthSmallest(s, 1)
RangeOf(s) == FAbs(FSub(MaxOf(s), MinOf(s)))

(* A criterion is TRUE, FALSE or "either" (its inputs were not recorded, or   *)
(* lie so close to the threshold that rounding may decide).                  *)
T3(b) == IF b THEN "T" ELSE "F"

(* s: search state (niter, nevals, lambda, hist, khist, bf, med, best), c: configuration *)
CritTolHistFun(c, s) ==
  LET ht == HistThresh(c.dim, s.lambda, c.maxhist) IN
  IF Len(s.hist) < ht THEN "F"
  ELSE T3(FLt(RangeOf(LastN(s.hist, ht)), FMax(c.ftol, "1e-12")))

CritEqualFunVals(c, s) ==
  LET hl == Min2(c.dim, Len(s.hist)) IN
  IF hl < HistCap(c.dim, s.lambda, c.maxhist) THEN "F"
  ELSE LET eq == Cardinality({i \in (Len(s.hist)-hl+1)..Len(s.hist) : FEq(s.hist[i], s.khist[i])})
       IN T3(3 * eq > hl)

CritStagnation(c, s) ==
  IF Len(s.bf) < 20 \/ Len(s.med) < 20 THEN "F"
  ELSE T3(~FLt(MedianSeq(s.bf), MedianSeq(Front(s.med, 20))))

CritAutoMaxIter(c, s) == T3(~FLt(FFromInt(s.niter), AutoMaxIterThresh(c.dim, s.lambda, c.vd)))
CritMaxFEvals(c, s, maxfevals) == T3(maxfevals # -1 /\ s.nevals >= maxfevals)
CritMaxIter(c, s) == T3(c.maxiter # -1 /\ s.niter >= c.maxiter)
CritFTarget(c, s) == T3(c.ftarget # "Infinity" /\ FLe(s.best, c.ftarget))

(* the statuses allowed by the activity map `act` and the truth of each criterion *)
RECURSIVE StatusFrom(_, _, _)
StatusFrom(k, act, tv) ==
  IF k > Len(Prio) THEN {CONT}
  ELSE IF ~act[ToString(Prio[k])] \/ tv[Prio[k]] = "F" THEN StatusFrom(k+1, act, tv)
  ELSE IF tv[Prio[k]] = "T" THEN {Prio[k]}
  ELSE {Prio[k]} \cup StatusFrom(k+1, act, tv)

(* two values are the same: NaN equals NaN *)
Same(a, b) == a = b \/ FEq(a, b) \/ (FIsNaN(a) /\ FIsNaN(b))
SeqFunc(n, F(_)) == [i \in 1..n |-> F(i)]
=============================================================================
