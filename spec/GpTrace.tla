------------------------------ MODULE GpTrace ------------------------------
(***************************************************************************)
(* Validation of what the real genotype / phenotype transforms returned    *)
(* (C25), and of what removing and adding dimensions does (C26).           *)
(* A record: cfg (the transform), and items, each with op:                 *)
(*   "x"  x, ph, phm, back, again  a vector of the search representation   *)
(*   "y"  y, g, gm, ph             a feasible parameter vector             *)
(*   "bnd" b                       the bounds reported                     *)
(*   "vec" v0, m0, v, m, prog      a step of a program of removals         *)
(*   "fix", "vpk"                  reduced solutions and problems          *)
(* An item of a transform from which dimensions have been removed has them *)
(* in rem.                                                                 *)
(***************************************************************************)
EXTENDS Geno, Json, IOUtils

Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, errs
vars == <<rid, i, errs>>
It == Runs[rid].items
E == It[i]
SetOf(s) == {s[k] : k \in 1..Len(s)}
T == IF Len(E.rem) = 0 THEN Runs[rid].cfg ELSE Without(Runs[rid].cfg, SetOf(E.rem))
Chk(p, name, ok) == IF Prop # "ALL" /\ p # Prop THEN {} ELSE IF ok THEN {} ELSE {<<p, name>>}
\* checks of a reduced transform belong to C26
P == IF Len(E.rem) = 0 THEN "C25" ELSE "C26"

\* rounding: of numbers of the size of the internal ones, seen from outside
Size(t, k, u) == FAdd(FAdd(FAbs(u), "1e-300"), IF HasBounds(t) THEN FAdd(FAbs(InLb(t, k)), FAbs(InUb(t, k))) ELSE "0.0") ++ FAbs(Shift(t, k)) ++ "1.5"
InTol(t, k, u) == FMul("1e-12", Size(t, k, u))
OutTol(t, k, u) == FDiv(InTol(t, k, u), FAbs(Scal(t, k)))
Near(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)
Finite(v) == \A k \in 1..Len(v) : FIsFinite(v[k])
\* y is the phenotype of x
IsPheno(t, y, x) == LET p == Pheno(t, x)
                        u == UserPheno(t, x)
                    IN Len(y) = Len(x) /\ \A k \in 1..Len(x) : Near(y[k], p[k], OutTol(t, k, u[k]))
\* g is the genotype of y: it leads back to y, and lies in the domain that the bounds are extended to
IsGeno(t, g, y) ==
  /\ Len(g) = Len(y) /\ IsPheno(t, y, g)
  /\ HasBounds(t) => LET u == UserPheno(t, g) IN \A k \in 1..Len(y) :
       LET half == FMul("0.5", FSub(InUb(t, k), InLb(t, k))) IN
       /\ FLe(InLb(t, k) -- Margin(InLb(t, k), half) -- InTol(t, k, u[k]), u[k])
       /\ FLe(u[k], InUb(t, k) ++ Margin(InUb(t, k), half) ++ InTol(t, k, u[k]))

XItem ==
  /\ E.op = "x"
  /\ errs' = Chk(P, "the phenotype is not finite", Finite(E.ph))
        \cup Chk(P, "the phenotype is outside the bounds", Feasible(T, E.ph))
        \cup Chk(P, "phenotype of a vector", IsPheno(T, E.ph, E.x))
        \cup Chk(P, "phenotype of a population", IsPheno(T, E.phm, E.x) /\ Feasible(T, E.phm))
        \cup Chk(P, "genotype of a phenotype", IsGeno(T, E.back, E.ph))
        \cup Chk(P, "a further round trip changes the phenotype",
                 LET u == UserPheno(T, E.back) IN
                 /\ Len(E.again) = Len(E.ph)
                 /\ \A k \in 1..Len(E.ph) : Near(E.again[k], E.ph[k], OutTol(T, k, u[k])))
YItem ==
  /\ E.op = "y"
  /\ errs' = Chk(P, "genotype of a feasible vector", IsGeno(T, E.g, E.y))
        \cup Chk(P, "genotype of a population", IsGeno(T, E.gm, E.y))
        \cup Chk(P, "the round trip changes a feasible vector",
                 LET u == UserPheno(T, E.g) IN
                 /\ Len(E.ph) = Len(E.y)
                 /\ \A k \in 1..Len(E.y) : Near(E.ph[k], E.y[k], OutTol(T, k, u[k])))
BndItem ==
  /\ E.op = "bnd"
  /\ errs' = Chk(P, "bounds reported", Len(E.b) = Len(T.lb) /\ \A k \in 1..Len(E.b) :
                 /\ Near(E.b[k][1], InLb(T, k), InTol(T, k, "0.0")) /\ Near(E.b[k][2], InUb(T, k), InTol(T, k, "0.0"))
                 /\ FEq(E.b[k][3], T.lb[k]) /\ FEq(E.b[k][4], T.ub[k]))
SameItem == /\ E.op = "same" /\ errs' = Chk("C26", "the original is affected by the removal from its copy", E.ok)

(* ---- vectors and matrices of labels ---- *)
RemoveAt(v, k) == [q \in 1..(Len(v) - 1) |-> IF q <= k THEN v[q] ELSE v[q + 1]]             \* k counts from 0
InsertAt(v, k, e) == [q \in 1..(Len(v) + 1) |-> IF q <= k THEN v[q] ELSE IF q = k + 1 THEN e ELSE v[q - 1]]
Cols(m, k) == [r \in 1..Len(m) |-> RemoveAt(m[r], k)]
VecItem ==
  /\ E.op = "vec"
  /\ errs' = Chk("C26", "removing or adding an element",
                 E.v = CASE E.act = "r" -> RemoveAt(E.v0, E.k) [] E.act = "a" -> InsertAt(E.v0, E.k, E.val) [] OTHER -> E.v0)
        \cup Chk("C26", "removing a row or column",
                 E.m = CASE E.act = "R" -> RemoveAt(E.m0, E.k) [] E.act = "C" -> Cols(E.m0, E.k) [] OTHER -> E.m0)

(* ---- a solution and its settings without some dimensions, one after the other ---- *)
RECURSIVE Down(_, _)
Down(v, ks) == IF ks = <<>> THEN v ELSE Down(RemoveAt(v, ks[1]), Tail(ks))
MDown(m, ks) == LET r == Down(m, ks) IN [q \in 1..Len(r) |-> Down(r[q], ks)]
FixItem ==
  /\ E.op = "fix"
  /\ LET b == E.before
         a == E.after
         ks == E.ks
     IN errs' = Chk("C26", "mean of the reduced solution", a.xmean = Down(b.xmean, ks))
          \cup Chk("C26", "covariance of the reduced solution", a.cov = MDown(b.cov, ks) /\ a.csqinv = MDown(b.csqinv, ks))
          \cup Chk("C26", "candidates of the reduced solution", a.cand = [q \in 1..Len(b.cand) |-> Down(b.cand[q], ks)])
          \cup Chk("C26", "the reduced solution starts anew", a.niter = 0 /\ a.fevals = 0 /\ a.status = 0 /\ a.sigma = b.sigma)
          \cup Chk("C26", "dimension of the reduced settings", E.dim = Len(Runs[rid].cfg.x0) - Len(ks))
          \cup Chk("C26", "initial point of the reduced settings",
                   Len(E.x0min) = E.dim /\ LET d == Down(Runs[rid].cfg.x0, ks) IN \A q \in 1..E.dim : FEq(E.x0min[q], d[q]) /\ FEq(E.x0max[q], d[q]))
          \cup Chk("C26", "the reduced settings describe another problem", E.r1 = E.r2)

(* ---- the others optimized, with some parameters held ---- *)
\* the values held, as the objective sees them
Hold(q) == LET k == E.ks[q] + 1 IN
  IF E.pheno THEN E.vk[q] ELSE Pheno(T, [d \in 1..Len(Runs[rid].cfg.x0) |-> IF d = k THEN E.vk[q] ELSE "0.0"])[k]
Held(x) == Len(x) = Len(Runs[rid].cfg.x0) /\ \A q \in 1..Len(E.ks) :
  LET k == E.ks[q] + 1 IN Near(x[k], Hold(q), OutTol(T, k, IF E.pheno THEN Hold(q) ** Scal(T, k) ELSE E.vk[q]))
VpkItem ==
  /\ E.op = "vpk"
  /\ errs' = Chk("C26", "a call without the held values in their places", \A q \in 1..Len(E.calls) : Held(E.calls[q].x))
        \cup Chk("C26", "a call outside the bounds", \A q \in 1..Len(E.calls) : Feasible(T, E.calls[q].x))
        \cup Chk("C26", "evaluations", E.fevals = Len(E.calls))
        \cup Chk("C26", "the solution is not an evaluated point", \E q \in 1..Len(E.calls) :
                 FEq(E.calls[q].f, E.best.f) /\ IsPheno(T, E.calls[q].x, E.best.x))
        \cup Chk("C26", "the solution without the held values", Held(E.pbest))

Init == rid \in 1..Len(Runs) /\ i = 1 /\ errs = {}
Next == /\ i <= Len(It) /\ i' = i + 1 /\ UNCHANGED rid
        /\ (XItem \/ YItem \/ BndItem \/ SameItem \/ VecItem \/ FixItem \/ VpkItem)
OK == errs = {}
Complete == Len(It) > 0
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, run |-> Runs[rid].run, i |-> i, errs |-> errs]
=============================================================================
