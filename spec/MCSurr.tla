------------------------------ MODULE MCSurr -------------------------------
(***************************************************************************)
(* All histories of a user turning the surrogate on and off, with restarts *)
(* at any point, for small populations, training sets and life lengths.    *)
(* Points are numbered by the order of their evaluation.                   *)
(***************************************************************************)
EXTENDS Surr, TLC, Json, IOUtils, FiniteSets
Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
Gen == "GEN" \in DOMAIN IOEnv /\ IOEnv.GEN = "1"
N == IF Deep THEN 8 ELSE 6
VARIABLES kind, lambda, lprime, l, nsteps, niter, tset, trained, calls, hist, restarted, bad
vars == <<kind, lambda, lprime, l, nsteps, niter, tset, trained, calls, hist, restarted, bad>>
Init ==
  /\ kind \in {"simple", "acm"}
  /\ lambda \in {3, 4, 5} /\ l \in {2, 5, 9} /\ lprime \in (IF kind = "acm" THEN {0, 1, 2} ELSE {0})
  /\ nsteps \in (IF kind = "simple" THEN {1, 2, 4} ELSE {1})
  /\ niter = 0 /\ tset = <<>> /\ trained = FALSE /\ calls = 0 /\ hist = <<>> /\ restarted = FALSE /\ bad = FALSE
Iterate(x) ==
  LET base == Start(kind, niter, tset)
      real == Real(kind, x, niter, nsteps, base, l)
      k == NCalls(kind, real, lambda, lprime)
      t2 == Push(base, [j \in 1..k |-> calls + j], l)
  IN /\ Len(hist) < N
     /\ calls' = calls + k /\ tset' = t2 /\ niter' = niter + 1
     /\ trained' = (trained \/ Train(kind, real, t2, l))
     /\ hist' = Append(hist, [x |-> x, n |-> k])
     /\ bad' = (bad \/ (~real /\ ~trained))
     /\ UNCHANGED <<kind, lambda, lprime, l, nsteps, restarted>>
Restart == ~Gen /\ niter > 0 /\ ~restarted /\ niter' = 0 /\ restarted' = TRUE
           /\ UNCHANGED <<kind, lambda, lprime, l, nsteps, tset, trained, calls, hist, bad>>
Next == (\E x \in BOOLEAN : Iterate(x)) \/ Restart
Spec == Init /\ [][Next]_vars
\* the model is only ever used after it has been trained
NeverUntrained == ~bad
Bounded == Len(tset) <= l
\* the training set holds the most recent evaluations, oldest first
Recent == \A j \in 1..Len(tset) : tset[j] = calls - Len(tset) + j
\* turned off, nothing is left to the model
Off == \A j \in 1..Len(hist) : hist[j].x \/ hist[j].n = lambda
Out == Gen /\ Len(hist) = N => PrintT("SURR " \o ToJson([kind |-> kind, lambda |-> lambda, lprime |-> lprime, l |-> l, nsteps |-> nsteps, hist |-> hist]))
=============================================================================
