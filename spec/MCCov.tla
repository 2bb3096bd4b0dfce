------------------------------- MODULE MCCov --------------------------------
(***************************************************************************)
(* The updates of the search distribution, explored exhaustively on small  *)
(* instances:                                                              *)
(*  - the constants are admissible for every variant, dimension up to      *)
(*    MaxDim and population up to MaxLambda (PART = "consts");             *)
(*  - from the initial distribution, whatever the ranked candidates (all   *)
(*    combinations of points of a grid around the mean), every sequence of *)
(*    up to Depth updates leaves a valid distribution: symmetric positive  *)
(*    definite covariance, positive step-size, mean inside the hull of the *)
(*    selected candidates (PART = "updates").                              *)
(***************************************************************************)
EXTENDS Cov, IOUtils
Part == IF "PART" \in DOMAIN IOEnv THEN IOEnv.PART ELSE "consts"
Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
MaxDim == IF Deep THEN 80 ELSE 30
MaxLambda == IF Deep THEN 120 ELSE 40
Depth == 2

Variants == {"cma", "acma", "sep", "sepacma", "vd"}
Cfg(v, dim, tpa, noisy) ==
  [dim |-> dim, sep |-> v \in {"sep", "sepacma"}, vd |-> v = "vd", upd |-> IF v \in {"acma", "sepacma"} THEN "acma" ELSE "cma",
   noisy |-> noisy, tpa |-> tpa, nfixed |-> 0, grad |-> 0]

VARIABLES var, dim, lambda, tpa, d, n
vars == <<var, dim, lambda, tpa, d, n>>

D0(k) == [m |-> Zeros(k), sigma |-> "1.0", cov |-> MDiag(Ones(k)), sep |-> Ones(k), ps |-> Zeros(k), pc |-> Zeros(k)]
Init == /\ n = 0
        /\ IF Part = "consts"
           THEN /\ var \in Variants /\ tpa \in {1, 2}
                /\ dim \in (IF var = "vd" THEN 6 ELSE 1)..MaxDim
                /\ lambda \in 2..MaxLambda
                /\ d = 0
           ELSE /\ var \in Variants \ {"vd"} /\ tpa = 1 /\ dim = 2 /\ lambda = 4 /\ d = D0(2)

C == Cfg(var, dim, tpa, FALSE)
K == Consts(C, lambda)
\* offsets in units of the step-size
Grid == IF Deep THEN {"-1.5", "0.0", "2.0"} ELSE {"-1.0", "2.0"}
Pts == [1..2 -> Grid]
\* the worst candidate only matters to the active variants
Worst == IF C.upd = "cma" THEN {[k \in 1..2 |-> "2.0"]} ELSE IF Deep THEN {p \in Pts : p[1] = "2.0"} ELSE Pts
Step ==
  /\ Part = "updates" /\ n < Depth
  /\ \E p1, p2 \in Pts, p4 \in Worst :
       LET at(p) == [x |-> [k \in 1..2 |-> d.m[k] ++ (d.sigma ** p[k])]]
           \* the third candidate only matters to the active variants; the mirrored first keeps the product small
           ranked == <<at(p1), at(p2), at([k \in 1..2 |-> FNeg(p1[k])]), at(p4)>>
           m1 == NewMean(K, ranked)
           y == VScale("1.0" // d.sigma, VSub(m1, d.m))
           ps1 == NewPs(C, K, d, d.cov, y)
           h == CHOOSE q \in Hsigs(C, K, ps1, n) : TRUE
           pc1 == NewPc(K, d, y, h)
           cov1 == IF C.upd = "acma" THEN AcmaCov(C, K, d, d.cov, ranked, pc1) ELSE CmaCov(C, K, d, ranked, pc1, h)
       IN d' = [d EXCEPT !.m = m1, !.sigma = CsaSigma(K, d, ps1), !.ps = ps1, !.pc = pc1,
                         !.cov = IF C.sep THEN @ ELSE cov1, !.sep = IF C.sep THEN cov1 ELSE @]
  /\ n' = n + 1
  /\ UNCHANGED <<var, dim, lambda, tpa>>
Next == Step
Spec == Init /\ [][Next]_vars

ConstantsAdmissible == n = 0 => ConstsOk(K)
Valid ==
  Part = "updates" =>
  /\ FIsFinite(d.sigma) /\ FLt("0.0", d.sigma)
  /\ IF C.sep THEN \A k \in 1..dim : FLt("0.0", d.sep[k])
     ELSE MClose(d.cov, MTrans(d.cov), "1e-12", "0.0") /\ FLt("0.0", VMin(MEigs(d.cov)))
  /\ \A k \in 1..dim : FIsFinite(d.m[k])
Shift ==     \* the mean moves by at most the largest offset, in units of the step-size
  [][Part = "updates" => \A k \in 1..dim : FLe(FAbs(d'.m[k] -- d.m[k]), "2.000001" ** d.sigma)]_vars
=============================================================================
