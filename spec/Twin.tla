-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* Relations between two behaviours of the optimizer.  Every line of the   *)
(* trace file holds two recorded executions a and b and the relation rel   *)
(* that the specification demands between them; they are walked in         *)
(* lockstep.                                                               *)
(*  same : b is a again - same seed and settings in another context (other *)
(*         earlier runs, other entry point, settings made in another       *)
(*         order): every event equal in every recorded field               *)
(*  diff : another seed - the first populations differ                     *)
(*  neg  : a maximizes f, b minimizes -f: equal but for the sign of the    *)
(*         values the objective returned                                   *)
(*  mono : b's objective is a strictly increasing transformation of a's:   *)
(*         equal but for objective values, as long as the returned values  *)
(*         of both really are ordered alike (rounding may create ties)     *)
(*  par  : a evaluates its populations in parallel, b serially: equal but  *)
(*         for the order of the calls within a population                  *)
(*  point: both evaluate the same points in the same order with the same   *)
(*         result (entry points that expose different events)              *)
(***************************************************************************)
EXTENDS F64, Sequences, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, live, av, bv, errs
vars == <<rid, i, live, av, bv, errs>>

R == Runs[rid]
A == R.a.ev
B == R.b.ev
N == IF Len(A) < Len(B) THEN Len(A) ELSE Len(B)
P == R.prop
Err(name, ok) == IF ok THEN {} ELSE {<<P, name>>}
Has(r, f) == f \in DOMAIN r

NoF(c) == [k \in DOMAIN c \ {"f"} |-> c[k]]
NoFs(s) == [k \in 1..Len(s) |-> NoF(s[k])]
Without(e, ks) == [k \in DOMAIN e \ ks |-> e[k]]
CandF == {"best", "bseen", "wseen", "bsol"}
SeqF == {"cand", "calls"}
\* everything but objective values
NoValues(e) == [k \in DOMAIN e \ {"edm"} |-> IF k \in CandF THEN NoF(e[k]) ELSE IF k \in SeqF THEN NoFs(e[k]) ELSE e[k]]
CallVals(e) == IF Has(e, "calls") THEN [k \in 1..Len(e.calls) |-> e.calls[k].f] ELSE <<>>

SameBag(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A k \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[k]}) = Cardinality({j \in 1..Len(t) : t[j] = s[k]})
CallsOf(e) == IF Has(e, "calls") THEN e.calls ELSE <<>>

(* The two events agree; the fields that disagree are named for the report *)
Diff(x, y) == (DOMAIN x \cup DOMAIN y) \ {k \in DOMAIN x \cap DOMAIN y : x[k] = y[k]}
Agree(x, y, what) == IF x = y THEN {} ELSE {<<P, what, Diff(x, y)>>}

NegCalls(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : NoF(s[k]) = NoF(t[k]) /\ (FEq(s[k].f, FNeg(t[k].f)) \/ (FIsNaN(s[k].f) /\ FIsNaN(t[k].f)))
NegVec(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : FEq(u[k], FNeg(v[k]))

RECURSIVE Flat(_, _)
Flat(evs, k) == IF k > Len(evs) THEN <<>> ELSE CallsOf(evs[k]) \o Flat(evs, k + 1)
EndOf(evs) == evs[Len(evs)]

Reports(evs) == LET s == SelectSeq(evs, LAMBDA e : e.e = "rep") IN [k \in 1..Len(s) |-> Without(s[k], {"calls"})]
\* what the settings say about themselves
Reals == {"ftarget", "ftol", "xtol", "sigma"}
Expected(x, get) == UNION {IF (IF k \in Reals THEN FEq(x[k], get[k]) ELSE x[k] = get[k]) THEN {} ELSE {<<P, "setting", k>>} : k \in DOMAIN x}

Init == /\ rid \in 1..Len(Runs)
        /\ i = 1
        /\ live = TRUE
        /\ av = <<>> /\ bv = <<>>
        /\ errs = {}

Compare(x, y) ==
  CASE R.rel = "same" -> Agree(x, y, "events differ")
    [] R.rel = "neg" -> Agree(Without(x, {"calls", "g"}), Without(y, {"calls", "g"}), "events differ")
                        \cup Err("the calls are not those of the negated objective", NegCalls(CallsOf(x), CallsOf(y)))
                        \cup Err("gradient", (Has(x, "g") /\ Has(y, "g")) => NegVec(x.g, y.g))
    [] R.rel = "mono" -> Agree(NoValues(x), NoValues(y), "events differ")
    [] R.rel = "par" -> Agree(Without(x, {"calls"}), Without(y, {"calls"}), "events differ")
                        \cup Err("not the same evaluations", SameBag(CallsOf(x), CallsOf(y)))
    [] OTHER -> {}

Whole ==
  CASE R.rel = "diff" ->
         LET first(evs) == evs[CHOOSE k \in 1..Len(evs) : evs[k].e = "ask" /\ \A j \in 1..(k-1) : evs[j].e # "ask"]
         IN Err("different seeds give the same candidates", first(A).pop # first(B).pop)
    [] R.rel = "point" ->
         Err("different points or values", Flat(A, 1) = Flat(B, 1))
         \cup Err("different reports", Reports(A) = Reports(B))
         \cup Err("different result",
                  \A k \in {"niter", "fevals", "status", "best", "bseen", "wseen", "sigma", "xmean", "cov", "sepcov", "pbest", "pmean", "edm"} :
                     (Has(EndOf(A), k) /\ Has(EndOf(B), k)) => EndOf(A)[k] = EndOf(B)[k])
         \cup Err("different return code", EndOf(A).ret = EndOf(B).ret)
    [] OTHER ->
         Err("one execution is longer", live => Len(A) = Len(B))
         \cup (IF R.rel = "par" THEN Err("a point changed while it was evaluated", R.a.par.moved = 0) ELSE {})
         \cup (IF Has(R, "expect") THEN Expected(R.expect, R.a.get) ELSE {})
         \cup (IF R.rel = "same" /\ Has(R.a, "get") THEN Agree(R.a.get, R.b.get, "settings differ") ELSE {})

Next ==
  /\ i <= N + 1
  /\ i' = i + 1
  /\ UNCHANGED rid
  /\ IF i = N + 1 THEN errs' = Whole /\ UNCHANGED <<live, av, bv>>
     ELSE LET x == A[i]
              y == B[i]
              mono == R.rel = "mono"
              an == IF mono THEN av \o CallVals(x) ELSE <<>>
              bn == IF mono THEN bv \o CallVals(y) ELSE <<>>
              \* the values of this event must be ordered alike for what follows from them to be comparable
              ok == ~mono \/ SameOrder(an, bn)
          IN /\ av' = an /\ bv' = bn
             /\ live' = (live /\ ok)
             /\ errs' = IF ~live THEN {}
                        ELSE IF ok THEN Compare(x, y)
                        ELSE Err("different points", NoFs(CallsOf(x)) = NoFs(CallsOf(y)))
OK == errs = {}
Spec == Init /\ [][Next]_vars
=============================================================================
