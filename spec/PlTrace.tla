------------------------------ MODULE PlTrace ------------------------------
(***************************************************************************)
(* Validation of profile likelihood results (C15) against the calls that   *)
(* the real code made for them.  An item: le (the result: f, x, min, max,  *)
(* emin, emax, n, k), rec (what the solution has recorded), before and     *)
(* after (solution and settings), pbest, and for every stored point the    *)
(* calls that returned its value (hits), each with the id of the maximal   *)
(* sequence of calls that shared the value of parameter k (blocks).        *)
(***************************************************************************)
EXTENDS Geno, Json, IOUtils
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, errs
vars == <<rid, i, errs>>
C == Runs[rid].cfg
It == Runs[rid].pl
E == It[i]
Chk(name, ok) == IF ok THEN {} ELSE {<<"C15", name>>}
L == E.le
N == C.n
K == C.ks[i] + 1
Rows == 1..(2 * N + 1)
Mid == N + 1
Size == FAdd("1.0", FAdd(VMaxAbs(E.pbest), IF HasBounds(C) THEN FAdd(VMaxAbs(C.lb), VMaxAbs(C.ub)) ELSE "0.0"))
NearX(a, b) == Len(a) = Len(b) /\ VClose(a, b, "1e-9", Size)
Same(a, b) == a = b \/ FEq(a, b)
Level == FAdd(L.f[Mid], C.fup)
Dist(r) == FAbs(FSub(L.f[r], Level))
Nearest(S) == {r \in S : \A q \in S : FLe(Dist(r), Dist(q))}
Block(b) == CHOOSE q \in {E.blocks[j] : j \in 1..Len(E.blocks)} : q.id = b
Centre(r) == L.x[r] = L.x[Mid] /\ Same(L.f[r], L.f[Mid])

\* a stored point is a point at which the objective has been called, with this value
Real(r) == \E h \in 1..Len(E.hits[r]) : NearX(E.hits[r][h].x, L.x[r])
\* ... while the others were being optimized and parameter k was held
MinCalls == IF C.dim = 1 THEN 1 ELSE 4
Optimized(r) == \E h \in 1..Len(E.hits[r]) :
   /\ NearX(E.hits[r][h].x, L.x[r])
   /\ LET b == Block(E.hits[r][h].b) IN b.n >= MinCalls /\ FLe(FAbs(FSub(b.xk, L.x[r][K])), FMul("1e-9", Size))

(* quadratic objectives without bounds: the best value with parameter k held is known *)
Quad == C.obj \in {"tilt", "sphere", "elli"} /\ ~HasBounds(C)
Coef == CASE C.obj = "tilt" -> FFromInt(K)
          [] C.obj = "sphere" -> "1.0"
          [] OTHER -> IF C.dim = 1 THEN "1.0" ELSE FPow("1000.0", FDiv(FFromInt(K - 1), FFromInt(C.dim - 1)))
Cent == IF C.obj = "tilt" THEN FFromInt(K) ELSE "0.0"
Profile(xk) == FAdd(FMul(Coef, FMul(FSub(xk, Cent), FSub(xk, Cent))), C.offset)
Loose == FAdd(FMul("0.02", C.fup), FMul("1e-6", FAdd("1.0", FAbs(C.offset))))
InfoOK(o) == Same(o.emin, FSub(o.min, L.x[Mid][K])) /\ Same(o.emax, FSub(o.max, L.x[Mid][K]))

Reached == FLe(Dist(1), FMul("0.1001", C.fup)) /\ FLe(Dist(2 * N + 1), FMul("0.1001", C.fup))
\* the solution is the minimum of the objective: from elsewhere the search stops as it finds a better minimum
AtMin == FLe(L.f[Mid], FAdd(C.offset, FMul("0.02", C.fup)))
Exhausted == (IF C.dim = 1 THEN E.calls ELSE E.nopt) >= C.plmax

Step ==
  /\ i <= Len(It) /\ i' = i + 1 /\ UNCHANGED rid
  /\ errs' =
          Chk("shape of the result", L.n = N /\ L.k = K - 1 /\ Len(L.f) = 2 * N + 1 /\ Len(L.x) = 2 * N + 1)
     \cup Chk("the curve's centre is not the solution's best candidate", NearX(L.x[Mid], E.pbest) /\ Same(L.f[Mid], E.before.best.f))
     \cup Chk("a stored value was not returned at the stored point", \A r \in Rows : Real(r))
     \cup Chk("a stored point without the others optimized, with the parameter held", \A r \in Rows : Centre(r) \/ Optimized(r))
     \cup Chk("a stored point outside the bounds", \A r \in Rows : Feasible(C, L.x[r]))
     \cup Chk("bounds are not the points nearest to the level",
              \E a \in Nearest(1..N), b \in Nearest((N + 2)..(2 * N + 1)) :
                  LET u == L.x[a][K]
                      v == L.x[b][K]
                  IN Same(L.min, FMin(u, v)) /\ Same(L.max, FMax(u, v)))
     \cup Chk("errors are not the distances of the bounds", InfoOK(L))
     \cup Chk("the result is not recorded in the solution", E.has /\ E.rec = L)
     \cup Chk("solution or settings changed", E.before = E.after)
     \cup Chk("the others are not optimized", Quad => \A r \in Rows : Centre(r) \/ FLe(L.f[r], FAdd(Profile(L.x[r][K]), Loose)))
     \cup Chk("the interval is not at the level, or does not enclose the best value",
              Quad /\ ~C.curve /\ C.check /\ AtMin => (FLe(L.min, L.x[Mid][K]) /\ FLe(L.x[Mid][K], L.max) /\ (Reached \/ Exhausted)))
Init == rid \in 1..Len(Runs) /\ i = 1 /\ errs = {}
Next == Step
OK == errs = {}
Complete == Len(It) = Len(C.ks)
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, run |-> Runs[rid].run, i |-> i, errs |-> errs]
=============================================================================
