-------------------------------- MODULE Geno --------------------------------
(***************************************************************************)
(* Genotype / phenotype transforms: a user transformation, then the        *)
(* piecewise-quadratic bound handling, then the linear scaling.            *)
(* t: [gp, lb, ub, scaling, shift, tf]; scaling with bounds maps the       *)
(* bounds onto the internal box [0, 10].                                   *)
(***************************************************************************)
EXTENDS F64

HasBounds(t) == t.gp \in {"pwq", "pwqlin"} /\ t.lb # <<>>
HasScaling(t) == t.gp \in {"lin", "pwqlin"} /\ (t.scaling # <<>> \/ t.lb # <<>>)
IntMin == "0.0"
IntMax == "10.0"

Margin(b, half) == FMin(half, FMul("0.05", FAdd("1.0", FAbs(b))))

\* scaling of coordinate k, and the bounds as the search representation sees them
Auto(t) == HasScaling(t) /\ t.scaling = <<>>
Scal(t, k) == IF ~HasScaling(t) THEN "1.0" ELSE IF ~Auto(t) THEN t.scaling[k] ELSE FDiv(FSub(IntMax, IntMin), FSub(t.ub[k], t.lb[k]))
Shift(t, k) == IF ~HasScaling(t) THEN "0.0" ELSE IF ~Auto(t) THEN t.shift[k] ELSE FSub(IntMax, FMul(Scal(t, k), t.ub[k]))
InLb(t, k) == IF Auto(t) THEN IntMin ELSE IF HasScaling(t) THEN FAdd(FMul(t.lb[k], Scal(t, k)), Shift(t, k)) ELSE t.lb[k]
InUb(t, k) == IF Auto(t) THEN IntMax ELSE IF HasScaling(t) THEN FAdd(FMul(t.ub[k], Scal(t, k)), Shift(t, k)) ELSE t.ub[k]

(* distance-preserving folding of the real line onto [lb - al, ub + au]: a    *)
(* triangle wave of half-period (ub + au) - (lb - al)                         *)
Fold(x, lo, hi) ==
  LET w == FSub(hi, lo)
      q == FSub(x, lo)
      m == FSub(q, FMul(FMul("2.0", w), FFloor(FDiv(q, FMul("2.0", w)))))     \* in [0, 2w)
      y == FAdd(lo, IF FLt(w, m) THEN FSub(FMul("2.0", w), m) ELSE m)
  IN FMin(FMax(y, lo), hi)                                                    \* far away only the rounding decides

PwqPheno(x, lb, ub) ==
  LET half == FMul("0.5", FSub(ub, lb))
      al == Margin(lb, half)
      au == Margin(ub, half)
      y == IF FLe(FSub(lb, al), x) /\ FLe(x, FAdd(ub, au)) THEN x ELSE Fold(x, FSub(lb, al), FAdd(ub, au))
  IN IF FLt(y, FAdd(lb, al)) THEN LET d == FSub(y, FSub(lb, al)) IN FAdd(lb, FDiv(FMul(d, d), FMul("4.0", al)))
     ELSE IF FLt(FSub(ub, au), y) THEN LET d == FSub(FAdd(ub, au), y) IN FSub(ub, FDiv(FMul(d, d), FMul("4.0", au)))
     ELSE y

PwqGeno(y, lb, ub) ==
  LET half == FMul("0.5", FSub(ub, lb))
      al == Margin(lb, half)
      au == Margin(ub, half)
  IN IF FLt(y, FAdd(lb, al)) THEN FAdd(FSub(lb, al), FMul("2.0", FSqrt(FMul(al, FSub(y, lb)))))
     ELSE IF FLt(FSub(ub, au), y) THEN FSub(FAdd(ub, au), FMul("2.0", FSqrt(FMul(au, FSub(ub, y)))))
     ELSE y

\* the user's transformations work on whole vectors
UserPheno(t, x) == CASE t.tf = "shift" -> [k \in 1..Len(x) |-> FAdd(x[k], "1.5")]
                     [] t.tf = "scale" -> [k \in 1..Len(x) |-> FMul(x[k], "2.0")]
                     [] t.tf = "rev" -> [k \in 1..Len(x) |-> x[Len(x) + 1 - k]]
                     [] OTHER -> x
UserGeno(t, x) == CASE t.tf = "shift" -> [k \in 1..Len(x) |-> FSub(x[k], "1.5")]
                    [] t.tf = "scale" -> [k \in 1..Len(x) |-> FDiv(x[k], "2.0")]
                    [] t.tf = "rev" -> [k \in 1..Len(x) |-> x[Len(x) + 1 - k]]
                    [] OTHER -> x

Pheno(t, x) ==
  LET u == UserPheno(t, x)
      b == [k \in 1..Len(x) |-> IF HasBounds(t) THEN PwqPheno(u[k], InLb(t, k), InUb(t, k)) ELSE u[k]]
  IN [k \in 1..Len(x) |-> IF HasScaling(t) THEN FDiv(FSub(b[k], Shift(t, k)), Scal(t, k)) ELSE b[k]]

GenoOf(t, y) ==
  LET z == [k \in 1..Len(y) |-> IF HasScaling(t) THEN FAdd(FMul(y[k], Scal(t, k)), Shift(t, k)) ELSE y[k]]
  IN UserGeno(t, [k \in 1..Len(y) |-> IF HasBounds(t) THEN PwqGeno(z[k], InLb(t, k), InUb(t, k)) ELSE z[k]])

\* what remains of a transform when the dimensions ks (counted from 0) are removed
Keep(v, ks) == LET idx == SelectSeq([k \in 1..Len(v) |-> k], LAMBDA k : k - 1 \notin ks) IN [q \in 1..Len(idx) |-> v[idx[q]]]
Without(t, ks) == [t EXCEPT !.lb = Keep(t.lb, ks), !.ub = Keep(t.ub, ks), !.scaling = Keep(t.scaling, ks), !.shift = Keep(t.shift, ks)]

(* rounding of the scaled bounds is the only slack *)
Slack(t, k) == IF HasScaling(t) THEN FMul("1e-13", FAdd(FAdd(FAdd(FAbs(t.lb[k]), FAbs(t.ub[k])), FSub(t.ub[k], t.lb[k])), FAbs(FDiv(Shift(t, k), Scal(t, k))))) ELSE "0.0"
Feasible(t, y) == HasBounds(t) => \A k \in 1..Len(y) : FLe(FSub(t.lb[k], Slack(t, k)), y[k]) /\ FLe(y[k], FAdd(t.ub[k], Slack(t, k)))
=============================================================================
