------------------------------ MODULE PtTrace ------------------------------
(***************************************************************************)
(* Validation of the points of a recorded run (log=x): every objective     *)
(* call, the population asked for, the evaluated and ranked candidates,    *)
(* and the solutions handed to the user.                                   *)
(***************************************************************************)
EXTENDS CmaOps, Geno, Json, IOUtils

Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rid, i, pop, cand, ini, best, bs, ws, finals, errs
vars == <<rid, i, pop, cand, ini, best, bs, ws, finals, errs>>
C == Runs[rid].cfg
Ev == Runs[rid].ev
E == Ev[i]
Chk(p, name, ok) == IF Prop # "ALL" /\ p # Prop THEN {} ELSE IF ok THEN {} ELSE {<<p, name>>}
In(f) == IF C.maximize THEN FNeg(f) ELSE f

Scale(x) == FAdd("1.0", FAdd(VMaxAbs(x), IF HasBounds(C) THEN FAdd(VMaxAbs(C.lb), VMaxAbs(C.ub)) ELSE "0.0"))
PhenoOf(ph, x) == VClose(ph, Pheno(C, x), "1e-9", Scale(x))
SamePair(a, b) == a.x = b.x /\ Same(a.f, b.f)
Pair(o) == [set |-> TRUE, f |-> o.f, x |-> o.x]
Unset == [set |-> FALSE]
Agree(obs, exp) == obs.set = exp.set /\ (exp.set => SamePair(obs, exp))

Init == /\ rid \in 1..Len(Runs) /\ i = 1 /\ pop = <<>> /\ cand = <<>> /\ ini = Unset /\ best = Unset /\ bs = Unset /\ ws = Unset
        /\ finals = <<>> /\ errs = {}

Fixed(x) == \A k \in 1..Len(C.fixed) : Same(x[C.fixed[k][1] + 1], C.fixed[k][2])
FreeDiffer(p, k) == \E a, b \in 1..Len(p) : ~Same(p[a][k], p[b][k])

InBounds(calls) == Chk("C08", "objective called outside the bounds", \A k \in 1..Len(calls) : Feasible(C, calls[k].x))

\* the objective's value at the phenotype of o's genotype, if o is the initial point
TRep ==
  /\ E.e = "rep" /\ i' = i + 1 /\ UNCHANGED <<rid, pop>>
  /\ LET new == E.niter = 0
         hasInit == new /\ E.bseen.set
         call == E.calls[Len(E.calls)]
         ini1 == IF ~new THEN ini ELSE IF hasInit THEN Pair(E.bseen) ELSE Unset
         b1 == IF ~new THEN best ELSE ini1
         bs1 == IF ~new THEN bs ELSE ini1
         ws1 == IF ~new THEN ws ELSE Unset
     IN /\ ini' = ini1 /\ best' = b1 /\ bs' = bs1 /\ ws' = ws1 /\ cand' = IF new THEN <<>> ELSE cand
        /\ finals' = IF new /\ best.set THEN Append(finals, <<best, bs, ws>>) ELSE finals
        /\ errs' = InBounds(E.calls)
             \cup Chk("C09", "initial candidate is not the evaluated point",
                      hasInit => E.calls # <<>> /\ Same(E.bseen.f, In(call.f)) /\ PhenoOf(call.x, E.bseen.x))
             \cup Chk("C09", "best candidate", b1.set => SamePair(E.best, b1))
             \cup Chk("C09", "best seen candidate", Agree(E.bseen, bs1))
             \cup Chk("C09", "worst seen candidate", Agree(E.wseen, ws1))
             \cup Chk("C10", "fixed value in the initial candidate", hasInit => Fixed(E.bseen.x))

TAsk ==
  /\ E.e = "ask" /\ i' = i + 1 /\ pop' = E.pop
  /\ errs' = InBounds(E.calls)
        \cup Chk("C10", "fixed value in every candidate", \A k \in 1..Len(E.pop) : Fixed(E.pop[k]))
        \cup Chk("C10", "free parameters vary",
                 \A k \in 1..C.dim : (~\E q \in 1..Len(C.fixed) : C.fixed[q][1] + 1 = k) => FreeDiffer(E.pop, k))
  /\ UNCHANGED <<rid, cand, ini, best, bs, ws, finals>>

Ref == IF C.elit = 1 THEN bs ELSE ini
Own(k) ==   \* candidate k carries its own point and its value
  /\ E.cand[k].x = pop[k]
  /\ IF C.mt \/ Len(E.calls) < Len(pop)
     THEN \E q \in 1..Len(E.calls) : PhenoOf(E.calls[q].x, pop[k]) /\ Same(E.cand[k].f, In(E.calls[q].f))
     ELSE Same(E.cand[k].f, In(E.calls[k].f))
Injected(k) == C.elit # 0 /\ Ref.set /\ SamePair(E.cand[k], Ref)
TEval ==
  /\ E.e = "eval" /\ i' = i + 1
  /\ errs' = InBounds(E.calls)
        \cup Chk("C09", "one value per candidate", Len(E.cand) = Len(pop) /\ Len(E.calls) >= Len(pop))
        \cup Chk("C09", "candidate does not carry the value of its own point",
                 Len(E.cand) = Len(pop) => \A k \in 1..Len(pop) : Own(k) \/ Injected(k))
        \cup Chk("C09", "at most one candidate is injected",
                 Len(E.cand) = Len(pop) => \E q \in 0..Len(pop) : \A k \in 1..Len(pop) : k # q => Own(k))
        \cup Chk("C09", "evaluated point is not the phenotype of the candidate",
                 Len(E.calls) >= Len(pop) /\ ~C.mt => \A k \in 1..Len(pop) : PhenoOf(E.calls[k].x, pop[k]))
        \cup Chk("C10", "fixed value in every candidate", \A k \in 1..Len(E.cand) : Fixed(E.cand[k].x))
  /\ cand' = [k \in 1..Len(E.cand) |-> Pair(E.cand[k])]
  /\ UNCHANGED <<rid, pop, ini, best, bs, ws, finals>>

\* equal-value candidates other than the chosen one are as good a best / worst
TTell ==
  /\ E.e = "tell" /\ i' = i + 1
  /\ LET c1 == [k \in 1..Len(E.cand) |-> Pair(E.cand[k])]
         b == c1[1]
         w == c1[Len(c1)]
         bs1 == IF Better(b, bs) THEN b ELSE bs
         ws1 == IF Worse(w, ws) THEN w ELSE ws
     IN /\ errs' = InBounds(E.calls)
             \cup Chk("C09", "ranking separates points from values",
                      Len(c1) = Len(cand) /\ \A a \in 1..Len(c1) : \E q \in 1..Len(cand) : SamePair(c1[a], cand[q]))
             \cup Chk("C09", "ranking duplicates or drops candidates",
                      Cardinality({<<c1[k].x, c1[k].f>> : k \in 1..Len(c1)}) = Cardinality({<<cand[k].x, cand[k].f>> : k \in 1..Len(cand)}))
             \cup Chk("C09", "best candidate", Agree(E.best, b))
             \cup Chk("C09", "best seen candidate", Agree(E.bseen, bs1))
             \cup Chk("C09", "worst seen candidate", Agree(E.wseen, ws1))
        /\ cand' = c1 /\ best' = b /\ bs' = bs1 /\ ws' = ws1
  /\ UNCHANGED <<rid, pop, ini, finals>>

TSkip == E.e \in {"poke", "plot"} /\ i' = i + 1 /\ errs' = {} /\ UNCHANGED <<rid, pop, cand, ini, best, bs, ws, finals>>

Out(o, ph) == o.set => PhenoOf(ph, o.x)
TEnd ==
  /\ E.e = "end" /\ i' = i + 1
  /\ LET all == Append(finals, <<best, bs, ws>>)
         single == C.strat = "single"
         fin == IF single THEN {<<best, bs, ws>>} ELSE {all[k] : k \in 1..Len(all)}
     IN errs' = InBounds(E.calls)
          \cup Chk("C09", "returned solution is not an evaluated one",
                   \E f \in fin : (f[1].set => SamePair(E.best, f[1])) /\ Agree(E.bseen, f[2]) /\ Agree(E.wseen, f[3]))
          \cup Chk("C09", "best solution", E.best.set => SamePair(E.bsol, E.best))
          \cup Chk("C09", "phenotype of a returned solution", Out(E.best, E.pbest) /\ Out(E.bseen, E.pbseen) /\ Out(E.wseen, E.pwseen))
          \cup Chk("C08", "returned solution outside the bounds",
                   Feasible(C, E.pbest) /\ Feasible(C, E.pbseen) /\ Feasible(C, E.pwseen) /\ Feasible(C, E.pmean))
          \cup Chk("C10", "fixed value in the solution", (E.best.set => Fixed(E.best.x)) /\ (E.bseen.set => Fixed(E.bseen.x)))
  /\ UNCHANGED <<rid, pop, cand, ini, best, bs, ws, finals>>

Next == i <= Len(Ev) /\ (TRep \/ TAsk \/ TEval \/ TTell \/ TSkip \/ TEnd)
OK == errs = {}
Complete == i = Len(Ev) + 1 => Ev[Len(Ev)].e = "end"
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, run |-> Runs[rid].run, i |-> i, errs |-> errs]
=============================================================================
