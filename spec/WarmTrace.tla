----------------------------- MODULE WarmTrace ------------------------------
(***************************************************************************)
(* Recorded optimizations that start from the solution of an earlier one   *)
(* (C23): where the first and the later runs begin, and that the earlier   *)
(* solution object is left alone.  The rest of such an optimization is     *)
(* validated by CmaTrace and CovTrace like any other.                      *)
(***************************************************************************)
EXTENDS CmaOps, Json, IOUtils
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, errs
vars == <<rid, i, errs>>
R == Runs[rid]
C == R.cfg
E == R.ev[i]
Chk(name, ok) == IF ok THEN {} ELSE {<<"C23", name>>}
Full == ~C.sep /\ ~C.vd
Ones(k) == [j \in 1..k |-> "1.0"]
Unit(e) == IF Full THEN MClose(e.cov, MDiag(Ones(C.dim)), "0.0", "0.0") ELSE VClose(e.sepcov, Ones(C.dim), "0.0", "0.0")
Init == rid \in 1..Len(Runs) /\ i = 1 /\ errs = {}
Start(e) == e.e = "rep" /\ e.niter = 0
Initial == IF C.elit \in {1, 2} \/ C.inifv THEN 1 ELSE 0
Next ==
  /\ i <= Len(R.ev)
  /\ i' = i + 1 /\ UNCHANGED rid
  /\ errs' =
       (IF ~Start(E) THEN {} ELSE
             Chk("status is reset", E.status = 0)
        \cup Chk("counters are reset", E.fevals = Initial)
        \cup Chk("covariance is reset", Unit(E))
        \cup Chk("evolution paths are reset", "pc" \in DOMAIN E => (VMaxAbs(E.pc) = "0.0" /\ VMaxAbs(E.ps) = "0.0"))
        \cup Chk("population is that of the current settings", E.size = E.lambda)
        \cup (IF i = 1
              THEN Chk("starts at the mean of the solution", VClose(E.xmean, R.warm.xmean, "0.0", "0.0"))
                   \cup Chk("starts with the step-size of the solution", FEq(E.sigma, R.warm.sigma))
                   \cup Chk("initial value is taken at the starting point",
                            Initial = 1 => Len(E.calls) = 1)
              ELSE Chk("a further run starts at the best candidate of the solution", VClose(E.xmean, R.warm.bestx, "1e-12", "1.0"))))
       \cup (IF i = Len(R.ev) THEN Chk("the earlier solution is unchanged", R.warm = R.warm2) ELSE {})
OK == errs = {}
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, i |-> i, errs |-> errs]
=============================================================================
