------------------------------- MODULE Surr --------------------------------
(***************************************************************************)
(* Surrogate-assisted iterations: which candidates are really evaluated,   *)
(* what the training set becomes, and when the model is trained (C16).     *)
(* Two strategies: "simple" replaces the objective by the model for whole  *)
(* iterations of its life length; "acm" lets the model pre-select and      *)
(* really evaluates a few of the candidates of every iteration.            *)
(***************************************************************************)
EXTENDS Integers, Sequences
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
\* the training set an iteration starts with: a new run of acm starts anew
Start(kind, niter, tset) == IF kind = "acm" /\ niter = 0 THEN <<>> ELSE tset
Ready(base, l) == Len(base) >= l
\* all candidates are really evaluated
Real(kind, exploit, niter, nsteps, base, l) ==
   \/ ~exploit \/ ~Ready(base, l)
   \/ kind = "simple" /\ niter % Abs(nsteps) = 0
NCalls(kind, real, lambda, lprime) == IF real THEN lambda ELSE IF kind = "acm" THEN Max2(1, Min2(lprime, lambda)) ELSE 0
\* the l most recent of the really evaluated points
Push(base, batch, l) == LET all == base \o batch IN IF Len(all) <= l THEN all ELSE SubSeq(all, Len(all) - l + 1, Len(all))
Train(kind, real, tset, l) == Ready(tset, l) /\ (kind = "acm" \/ real)
=============================================================================
