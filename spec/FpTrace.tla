------------------------------- MODULE FpTrace ------------------------------
(***************************************************************************)
(* The data file of a recorded optimization (C27): one line for each       *)
(* progress report that did not abort, in order and across all runs, which *)
(* shows the state that was reported.  file: the lines, as numbers; a line *)
(* that starts a run in the full format is [dim, seed] with head = TRUE.   *)
(***************************************************************************)
EXTENDS CmaOps, Geno, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, l, med, errs
vars == <<rid, i, l, med, errs>>
R == Runs[rid]
C == R.cfg
E == R.ev[i]
n == C.dim
Chk(name, ok) == IF ok THEN {} ELSE {<<"C27", name>>}
Zero == [k \in 1..n |-> "0.0"]
Kappa(e) == IF FEq(e.mineig, "0.0") THEN "1.0" ELSE FSqrt(FDiv(e.maxeig, e.mineig))
Val(c) == IF c.set THEN c.f ELSE "NaN"
Near(a, b) == Same(a, b) \/ FClose(a, b, "1e-12", "0.0")
NearSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k])
\* where each group of columns ends
Singles == IF C.full THEN 9 ELSE 4
Groups == IF C.full THEN 4 ELSE 3
Col(v, g) == SubSeq(v, Singles + (g-1)*n + 1, Singles + g*n)
Line(v, e, m) ==
  IF Len(v) # Singles + Groups*n + 1 THEN Chk("number of columns", FALSE)
  ELSE LET x == Groups - 3
           scale == FAdd("1.0", FAdd(VMaxAbs(e.xmean), IF HasBounds(C) THEN FAdd(VMaxAbs(C.lb), VMaxAbs(C.ub)) ELSE "0.0"))
       IN Chk("value of the best candidate", Near(v[1], FAbs(e.best.f)))
     \cup Chk("evaluations", FEq(v[2], FFromInt(e.fevals)))
     \cup Chk("step-size", Near(v[3], e.sigma))
     \cup Chk("axis ratio", Near(v[4], Kappa(e)))
     \cup (IF ~C.full THEN {} ELSE
             Chk("value of the best seen candidate", Near(v[5], Val(e.bseen)))
        \cup Chk("median value", Near(v[6], m))
        \cup Chk("value of the worst seen candidate", Near(v[7], Val(e.wseen)))
        \cup Chk("extreme eigenvalues", Near(v[8], e.mineig) /\ Near(v[9], e.maxeig))
        \cup Chk("best seen candidate", NearSeq(Col(v, 1), IF e.bseen.set THEN e.bseen.x ELSE Zero)))
     \cup Chk("eigenvalues", NearSeq(Col(v, x + 1), IF e.eigval = <<>> THEN Zero ELSE e.eigval))
     \cup Chk("standard deviations", NearSeq(Col(v, x + 2), e.stds))
     \cup Chk("mean", VClose(Col(v, x + 3), Pheno(C, e.xmean), "1e-9", scale))
     \cup Chk("elapsed time", FLe("0.0", v[Len(v)]))
Init == rid \in 1..Len(Runs) /\ i = 1 /\ l = 1 /\ med = "NaN" /\ errs = {}
Next ==
  /\ i <= Len(R.ev)
  /\ i' = i + 1 /\ UNCHANGED rid
  /\ med' = IF E.e = "tell" THEN E.cand[(Len(E.cand) \div 2) + 1].f ELSE IF E.e = "rep" /\ E.niter = 0 THEN "NaN" ELSE med
  /\ IF E.e = "rep" /\ E.rc = 0
     THEN LET h == C.full /\ E.niter = 0
              k == IF h THEN l + 1 ELSE l
          IN /\ l' = k + 1
             /\ errs' = IF k > Len(R.file) THEN Chk("a report without a line", FALSE)
                        ELSE (IF h THEN Chk("header of a run", R.file[l].head /\ R.file[l].v = <<n, C.seed>>) ELSE {})
                             \cup (IF R.file[k].head THEN Chk("unexpected header", FALSE) ELSE Line(R.file[k].v, E, med'))
     ELSE /\ UNCHANGED l
          /\ errs' = IF E.e = "end" THEN Chk("lines without a report", l = Len(R.file) + 1) ELSE {}
OK == errs = {}
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, i |-> i, errs |-> errs]
=============================================================================
