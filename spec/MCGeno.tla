------------------------------- MODULE MCGeno -------------------------------
(***************************************************************************)
(* The transforms themselves: every bound pair, kind of transform and      *)
(* point of a grid made of the places where the formula changes (bounds,   *)
(* margins, folds), their neighbours, and their images some periods away.  *)
(* GEN=1 prints the points, which are then given to the real transforms.   *)
(***************************************************************************)
EXTENDS Geno, TLC, Json, IOUtils
Gen == "GEN" \in DOMAIN IOEnv /\ IOEnv.GEN = "1"
Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"

Pairs == {<<"0.0", "1.0">>, <<"-1.0", "1.0">>, <<"-5.0", "-4.9">>, <<"100.0", "1000.0">>, <<"-100000.0", "3.0">>, <<"0.0", "1e-6">>, <<"-2.5", "7.0">>}
         \cup (IF Deep THEN {<<"-1e9", "1e9">>, <<"3.0", "3.0001">>, <<"-1e-3", "2.0">>, <<"1e-8", "2e-8">>, <<"-7.0", "-1.0">>} ELSE {})
Scalings == {<<"2.0", "0.0">>, <<"0.1", "3.5">>, <<"7.5", "-1.0">>}
Base == [gp |-> "none", lb |-> <<>>, ub |-> <<>>, scaling |-> <<>>, shift |-> <<>>, tf |-> ""]
Tfs == {"", "shift", "scale"}
Transforms ==
  {[Base EXCEPT !.tf = f] : f \in Tfs}
  \cup {[Base EXCEPT !.gp = "lin", !.scaling = <<s[1]>>, !.shift = <<s[2]>>] : s \in Scalings}
  \cup {[Base EXCEPT !.gp = g, !.tf = f] : g \in {"pwq", "lin", "pwqlin"}, f \in Tfs}
  \cup {[Base EXCEPT !.gp = "pwqlin", !.scaling = <<s[1]>>, !.shift = <<s[2]>>] : s \in Scalings}
  \cup {[Base EXCEPT !.gp = g, !.lb = <<b[1]>>, !.ub = <<b[2]>>, !.tf = f] : g \in {"pwq", "lin", "pwqlin"}, f \in Tfs, b \in Pairs}
  \cup {[Base EXCEPT !.gp = "pwqlin", !.lb = <<b[1]>>, !.ub = <<b[2]>>, !.scaling = <<s[1]>>, !.shift = <<s[2]>>] : s \in Scalings, b \in Pairs}

Half(t) == FMul("0.5", FSub(InUb(t, 1), InLb(t, 1)))
Al(t) == Margin(InLb(t, 1), Half(t))
Au(t) == Margin(InUb(t, 1), Half(t))
W(t) == IF HasBounds(t) THEN FSub(InUb(t, 1), InLb(t, 1)) ELSE "1.0"
Period(t) == "2.0" ** (W(t) ++ Al(t) ++ Au(t))
Kinks(t) ==
  IF ~HasBounds(t) THEN {"0.0", "1.0", "-3.75", "1e6", "-1e-9"}
  ELSE LET l == InLb(t, 1)
           u == InUb(t, 1)
       IN {l, u, l -- Al(t), l ++ Al(t), u -- Au(t), u ++ Au(t), l ++ Half(t), (l -- ("2.0" ** Al(t))) -- Half(t), (u ++ ("2.0" ** Au(t))) ++ Half(t)}
Offsets(t) == {"0.0"} \cup {FMul(s, FMul(o, W(t))) : s \in {"1.0", "-1.0"}, o \in (IF Deep THEN {"1e-9", "1e-4", "0.01", "0.13", "0.31"} ELSE {"1e-9", "0.01"})}
Turns == IF Deep THEN {"0.0", "1.0", "-1.0", "2.0", "-3.0", "17.0", "-1000.0"} ELSE {"0.0", "1.0", "-1.0", "-3.0"}
Points(t) == {(k ++ o) ++ (IF HasBounds(t) THEN n ** Period(t) ELSE "0.0") : k \in Kinks(t), o \in Offsets(t), n \in Turns}
XOf(t, u) == UserGeno(t, <<u>>)

Tol(t, u) == FMul("1e-11", FAbs(u) ++ (IF HasBounds(t) THEN FAbs(InLb(t, 1)) ++ FAbs(InUb(t, 1)) ELSE "0.0") ++ FAbs(Shift(t, 1)) ++ "1.5") // FAbs(Scal(t, 1))
InTol(t, u) == Tol(t, u) ** FAbs(Scal(t, 1))
Near(a, b, e) == FLe(FAbs(FSub(a, b)), e)

VARIABLES t, u
Init == t \in Transforms /\ u \in Points(t) /\ (Gen => PrintT("PT " \o ToJson([t |-> t, x |-> XOf(t, u)[1], y |-> Pheno(t, XOf(t, u))[1]])))
Next == FALSE /\ UNCHANGED <<t, u>>
Spec == Init /\ [][Next]_<<t, u>>
Ph(v) == Pheno(t, XOf(t, v))[1]
PhenoFeasible == Feasible(t, <<Ph(u)>>)
RoundTrip == Near(Pheno(t, GenoOf(t, <<Ph(u)>>))[1], Ph(u), Tol(t, u))
Principal == HasBounds(t) => LET g == UserPheno(t, GenoOf(t, <<Ph(u)>>))[1] IN
               FLe(InLb(t, 1) -- Al(t) -- InTol(t, g), g) /\ FLe(g, InUb(t, 1) ++ Au(t) ++ InTol(t, g))
NoStretch == \A h \in {"1e-3", "0.07", "0.5"} :   \* never farther apart than the search's own step
               LET v == u ++ (h ** W(t)) IN FLe(FAbs(FSub(Ph(v), Ph(u))) ** FAbs(Scal(t, 1)), (FAbs(v -- u) ** "1.000001") ++ InTol(t, u))
Periodic == HasBounds(t) => Near(Ph(u ++ Period(t)), Ph(u), Tol(t, u ++ Period(t)))
Identity == \* away from the margins nothing but the scaling happens
  (HasBounds(t) /\ FLe(InLb(t, 1) ++ Al(t), u) /\ FLe(u, InUb(t, 1) -- Au(t))) => Near((Ph(u) ** Scal(t, 1)) ++ Shift(t, 1), u, InTol(t, u))
Order == \* monotone within the extended domain
  (HasBounds(t) /\ FLe(InLb(t, 1) -- Al(t), u) /\ FLe(u ++ ("0.01" ** W(t)), InUb(t, 1) ++ Au(t))) =>
     IF FLt("0.0", Scal(t, 1)) THEN FLe(Ph(u), Ph(u ++ ("0.01" ** W(t))) ++ Tol(t, u)) ELSE TRUE
=============================================================================
