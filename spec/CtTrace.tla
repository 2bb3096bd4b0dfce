------------------------------ MODULE CtTrace ------------------------------
(***************************************************************************)
(* Validation of contours (C28).  A contour of two parameters at a level   *)
(* is a set of points: where each of the two, held at a bound of its       *)
(* profile interval, leaves the others when they are re-optimized (four),  *)
(* and further points, with both held and the others re-optimized.  pts:   *)
(* the points, each with the number of calls that held x (nx), y (ny) or   *)
(* both (nb), and the least value among the latter (f); lx, ly: the        *)
(* intervals of the two; kept: the intervals computed before; cmin, cmax:  *)
(* the smallest box around all points evaluated.                           *)
(***************************************************************************)
EXTENDS Geno, Json, IOUtils
Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, errs
vars == <<rid, i, errs>>
E == Runs[rid]
C == E.cfg
P == E.pts
Chk(name, ok) == IF ok THEN {} ELSE {<<"C28", name>>}
KX == C.px + 1
KY == C.py + 1
Size == FAdd("1.0", FAdd(VMaxAbs(E.pbest), IF HasBounds(C) THEN FAdd(VMaxAbs(C.lb), VMaxAbs(C.ub)) ELSE "0.0"))
Near(a, b) == FLe(FAbs(FSub(a, b)), FMul("1e-7", FAdd(Size, FAbs(b))))
Bx(e) == FAdd(E.pbest[KX], e)
By(e) == FAdd(E.pbest[KY], e)
XBounds == {Bx(E.lx.emin), Bx(E.lx.emax)}
YBounds == {By(E.ly.emin), By(E.ly.emax)}
AtX(p) == \E b \in XBounds : Near(p.x, b)
AtY(p) == \E b \in YBounds : Near(p.y, b)
\* held at a bound of one interval, the others (the other of the two among them) being optimized
Extreme(p) == p.nb >= 1 /\ ((AtX(p) /\ p.nx >= 4) \/ (AtY(p) /\ p.ny >= 4))
\* both held, the others being optimized
Held(p) == p.nb >= (IF C.dim = 2 THEN 1 ELSE 4)
Pts == {P[q] : q \in 1..Len(P)}

(* quadratic objectives without bounds, from their minimum: the level is known *)
Coef(k) == CASE C.obj \in {"tilt", "corr"} -> FFromInt(k)
             [] C.obj = "sphere" -> "1.0"
             [] OTHER -> FPow("1000.0", FDiv(FFromInt(k - 1), FFromInt(C.dim - 1)))
Cent(k) == IF C.obj \in {"tilt", "corr"} THEN FFromInt(k) ELSE "0.0"
Quad == C.obj \in {"tilt", "sphere", "elli", "corr"} /\ ~HasBounds(C) /\ C.check
        /\ FLe(E.before.best.f, FAdd(C.offset, FMul("0.02", C.fup)))
Dx(p) == FSub(p.x, Cent(KX))
Dy(p) == FSub(p.y, Cent(KY))
Profile(p) == FAdd(FAdd(FMul(Coef(KX), FMul(Dx(p), Dx(p))), FMul(Coef(KY), FMul(Dy(p), Dy(p)))),
                   IF C.obj = "corr" THEN FMul(Dx(p), Dy(p)) ELSE "0.0")
Loose == FAdd(FMul("0.02", C.fup), FMul("1e-6", FAdd("1.0", FAbs(C.offset))))
Cross(a, b) == FSub(FMul(Dx(a), Dy(b)), FMul(Dy(a), Dx(b)))
Turn(q) == Cross(P[q], P[IF q = Len(P) THEN 1 ELSE q + 1])
LevelReached(l) ==  \* the interval itself is at the level on both sides (its iteration limit was not used up)
   \A r \in {1, Len(l.f)} : FLe(FAbs(FSub(FSub(l.f[r], l.f[(Len(l.f) + 1) \div 2]), C.fup)), FMul("0.1001", C.fup))

Step ==
  /\ i = 1 /\ i' = 2 /\ UNCHANGED rid
  /\ errs' =
          Chk("number of points", Len(P) >= 4 /\ Len(P) <= C.np)
     \cup Chk("the intervals are recorded", E.hx /\ E.hy /\ E.lx.k = C.px /\ E.ly.k = C.py)
     \cup Chk("an interval computed before is computed again", \A q \in 1..Len(E.kept) : (E.kept[q].k = C.px => E.lx = E.kept[q]) /\ (E.kept[q].k = C.py => E.ly = E.kept[q]))
     \cup Chk("solution or settings changed", E.before = E.after)
     \cup Chk("an evaluated point is outside the bounds", Feasible(C, E.cmin) /\ Feasible(C, E.cmax))
     \cup Chk("a point where the others were not optimized, with the parameters held", \A p \in Pts : Held(p) \/ Extreme(p))
     \cup Chk("a bound of an interval is not on the contour",
              (\A b \in XBounds : \E p \in Pts : Near(p.x, b)) /\ (\A b \in YBounds : \E p \in Pts : Near(p.y, b)))
     \cup Chk("the others are not optimized", Quad => \A p \in Pts : FLe(p.f, FAdd(FAdd(Profile(p), C.offset), Loose)))
     \cup Chk("a point is not at the level",
              (Quad /\ LevelReached(E.lx) /\ LevelReached(E.ly)) =>
                 \A p \in Pts : FLe(Profile(p), FMul("1.13", C.fup)) /\ FLe(FMul(IF Extreme(p) /\ ~Held(p) THEN "0.87" ELSE "0.3", C.fup), Profile(p)))
     \cup Chk("the points do not go round the minimum",
              (Quad /\ LevelReached(E.lx) /\ LevelReached(E.ly)) => \A q \in 1..Len(P) : FLe("0.0", Turn(q)))
Init == rid \in 1..Len(Runs) /\ i = 1 /\ errs = {}
Next == Step
OK == errs = {}
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, run |-> Runs[rid].run, i |-> i, errs |-> errs]
=============================================================================
