------------------------------ MODULE CmaTrace ------------------------------
(***************************************************************************)
(* Validation of recorded optimizations against Cma.  Every line of the    *)
(* trace file is one run of the real code: its configuration (cfg) and the *)
(* sequence of events ev = <<rep, ask, eval, tell, rep, ..., end>>.        *)
(*   rep  : the progress function was called (from within stop())          *)
(*   ask, eval, tell : the call returned; with the objective calls made    *)
(*          since the previous event and the state the API exposes         *)
(*   end  : optimize() returned                                            *)
(* Each event is one step.  The step computes the state the specification  *)
(* allows and puts into errs the name of every disagreement; the trace is  *)
(* a behaviour of the specification iff errs stays empty (invariant OK).   *)
(* Prop restricts the comparison to the observations one property is       *)
(* about; "ALL" compares everything.                                       *)
(***************************************************************************)
EXTENDS Cma, Json, IOUtils

Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES rid, i, ph, s, g, pend, allowed, errs
vars == <<rid, i, ph, s, g, pend, allowed, errs>>

C == Runs[rid].cfg
Ev == Runs[rid].ev
E == Ev[i]
Has(r, f) == f \in DOMAIN r

\* a named comparison belonging to property p
Chk(p, name, ok) == IF Prop # "ALL" /\ p # Prop THEN {} ELSE IF ok THEN {} ELSE {<<p, name>>}

In(f) == IF C.maximize THEN FNeg(f) ELSE f        \* value as the optimizer sees it
Fs(cands) == [k \in 1..Len(cands) |-> cands[k].f]
SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Same(a[k], b[k])
SameCand(obs, exp) == obs.set = exp.set /\ (exp.set => Same(obs.f, exp.f))
SortVals(fs) == StableSort([k \in 1..Len(fs) |-> Cand(fs[k])])
SamePerm(a, b) == Len(a) = Len(b) /\ SameSeq(Fs(SortVals(a)), Fs(SortVals(b)))

NextKind(k) == IF k > Len(Ev) THEN "none" ELSE Ev[k].e
RECURSIVE AfterPlots(_)
AfterPlots(k) == IF NextKind(k) = "plot" THEN AfterPlots(k+1) ELSE NextKind(k)

\* a condition whose inputs are only known up to rounding
Robust(P(_)) == IF P("0.999999999") = P("1.000000001") THEN T3(P("1.0")) ELSE "A"

(* criteria that depend on the search distribution, from the recorded one *)
Num(ev, s0) ==
  IF ~Has(ev, "xmean") THEN [k \in Codes |-> "A"]
  ELSE
  LET diag == C.sep \/ C.vd
      n == C.dim
      var == IF diag THEN ev.sepcov ELSE [k \in 1..n |-> ev.cov[k][k]]
      fac == FDiv(ev.sigma, s0)
      tolx == FMax(C.xtol, "1e-12")
  IN [k \in Codes |->
      CASE k = CONDITIONCOV ->
             LET q == FDiv(ev.maxeig, ev.mineig) IN
             IF FClose(q, "1e14", "1e-9", "0.0") THEN "A" ELSE T3(FLt("1e14", q))
        [] k = TOLUPSIGMA ->
             LET rhs == FMul("1e20", FSqrt(ev.maxeig)) IN
             IF FClose(fac, rhs, "1e-9", "0.0") THEN "A" ELSE T3(FLt(rhs, fac))
        [] k = TOLX ->
             LET w == [j \in 1..n |-> FMul(FSqrt(var[j]), fac)]
                 q == IF Has(ev, "pc") THEN [j \in 1..n |-> FMul(FAbs(ev.pc[j]), fac)] ELSE <<>>
                 below(v, t) == \A j \in DOMAIN v : FLt(v[j], FMul(tolx, t))
                 one(v) == IF below(v, "0.999999999") THEN "T" ELSE IF ~below(v, "1.000000001") THEN "F" ELSE "A"
             IN IF one(w) = "F" \/ one(q) = "F" THEN "F"
                ELSE IF one(w) = "T" /\ one(q) = "T" /\ Has(ev, "pc") THEN "T" ELSE "A"
        [] k = NOEFFECTAXIS -> Robust(LAMBDA t :
             \A a \in 1..n :
                  LET ei == FMul(FMul(FMul("0.1", t), ev.sigma), FSqrt(ev.eigval[a])) IN
                  IF diag THEN FEq(ev.xmean[a], FAdd(ev.xmean[a], ei))
                  ELSE \A b \in 1..n : FEq(ev.xmean[a], FAdd(ev.xmean[a], FMul(ei, ev.eigvec[a][b]))))
        [] k = NOEFFECTCOOR -> Robust(LAMBDA t :
             \A a \in 1..n : FEq(ev.xmean[a], FAdd(ev.xmean[a], FMul(FMul(FMul("0.2", t), ev.sigma), FSqrt(var[a])))))
        [] OTHER -> "F"]

Budget == {MAXFEVALS, MAXITER, FTARGET}

Init == /\ rid \in 1..Len(Runs)
        /\ i = 1
        /\ ph = "start"
        /\ s = LET c == Runs[rid].cfg
                   new == NewRun(c, c.lambda, c.sigma0, c.maxfevals)
                   seen(w) == IF w.set THEN Cand(w.f) ELSE None
               IN \* starting from an earlier solution keeps what was seen
                  IF Has(c, "warm") THEN [new EXCEPT !.bseen = seen(c.warm.bseen), !.wseen = seen(c.warm.wseen)] ELSE new
        /\ g = NewG(Runs[rid].cfg) @@ [rep |-> 0, sts |-> {}]
        /\ pend = 0
        /\ allowed = {}
        /\ errs = {}

StateChecks(ev, st) ==
     Chk("C01", "fevals counter", ev.fevals = st.nevals /\ ev.nevals = st.nevals)
  \cup Chk("C17", "iteration number", ev.niter = st.niter)
  \cup Chk("C04", "best candidate", IF st.niter = 0 /\ ~st.initial.set THEN FIsNaN(ev.best.f) \/ Has(C, "warm") ELSE Same(ev.best.f, st.best))
  \cup Chk("C04", "best seen", SameCand(ev.bseen, st.bseen))
  \cup Chk("C04", "worst seen", SameCand(ev.wseen, st.wseen))

\* step-size at the start of a run that is not a small one
Sigma0 == IF i = 1 /\ Has(C, "warm") THEN C.warm.sigma ELSE C.sigma0
TRep ==
  /\ E.e = "rep"
  /\ i' = i + 1
  /\ UNCHANGED rid
  /\ LET new == ph = "start"
         small == new /\ C.strat = "bipop" /\ g.kind = "small"
         init == new /\ NeedsInitial(C, g)
         exp == pend + (IF init THEN 1 ELSE 0)
         s0 == IF small THEN [s EXCEPT !.lambda = E.lambda, !.sigma0 = E.sigma] ELSE s
         s1 == IF init /\ E.calls # <<>> THEN BeginStep(C, s0, In(E.calls[Len(E.calls)].f)) ELSE s0
         g1 == [g EXCEPT !.total = @ + exp]
         abort == E.rc # 0
         nxt == AfterPlots(i + 1)
         cont == nxt = "ask"
         st == IF abort THEN {} ELSE StopStatuses(C, s1, Num(E, s1.sigma0))
         tv == CritTruth(C, s1, Num(E, s1.sigma0))
         budgetDue == s1.niter > 0 /\ \E k \in Budget : C.crit[ToString(k)] /\ tv[k] = "T"
         af == AfterStop(C, s1, [g1 EXCEPT !.aborted = abort])
         e == Chk("C01", "calls outside iterations", Len(E.calls) = exp)
           \cup Chk("C01", "total calls", E.total = g1.total)
           \cup StateChecks(E, s1)
           \cup Chk("C17", "event order", ph \in {"start", "check"})
           \cup Chk("C01", "population size", E.lambda = s1.lambda /\ E.size = s1.lambda)
           \cup Chk("C17", "no work after an abort", abort => ~cont)
           \cup Chk("C17", "plot after every report", (Has(C, "plotfn") /\ C.plotfn) => (NextKind(i + 1) = "plot") = ~abort)
           \cup Chk("C02", "budget exhausted but search continues", ~(cont /\ budgetDue))
           \cup Chk("C03", "search continues although a criterion holds", (cont /\ ~abort) => CONT \in st)
           \cup Chk("C03", "search stops although no criterion holds", (~cont /\ ~abort) => st # {CONT})
           \cup (IF C.strat = "single" \/ abort THEN {} ELSE
                  Chk(IF C.strat = "ipop" THEN "C05" ELSE "C06", "a run does not end within its own budget", ~cont => st # {CONT})
             \cup Chk(IF C.strat = "ipop" THEN "C05" ELSE "C06", "a run goes on beyond its own budget", ~(cont /\ budgetDue)))
           \cup (IF ~new THEN {} ELSE
                  Chk("C05", "population size of the run", C.strat = "ipop" => E.lambda = s.lambda)
             \cup Chk("C05", "initial step-size of the run", C.strat = "ipop" => Same(E.sigma, Sigma0))
             \cup Chk("C05", "run starts from scratch", C.strat = "ipop" => E.niter = 0 /\ E.fevals = s1.nevals)
             \cup Chk("C06", "population size of a large run", (C.strat = "bipop" /\ ~small) => E.lambda = s.lambda)
             \cup Chk("C06", "population size of a small run", small => SmallLambdaOk(C, g, E.lambda))
             \cup Chk("C06", "step-size of a small run", small => SmallSigmaOk(E.sigma))
             \cup Chk("C06", "step-size of a large run", (C.strat = "bipop" /\ ~small) => Same(E.sigma, Sigma0))
             \cup Chk("C06", "run starts from scratch", C.strat = "bipop" => E.niter = 0 /\ E.fevals = s1.nevals))
           \cup (IF cont THEN {} ELSE
                  Chk(IF C.strat = "ipop" THEN "C05" ELSE IF C.strat = "bipop" THEN "C06" ELSE "C07",
                      IF af.ph = "start" THEN "a further run was due" ELSE "no further run was due",
                      nxt = (IF af.ph = "start" THEN "rep" ELSE "end"))
             \cup Chk("C17", "an abort ends the whole optimization", abort => nxt = "end"))
         \* the run that ends here is the one to be returned, so far
         cap == C.strat # "single" /\ ~ElitRestartNeeded(C, s1, [g1 EXCEPT !.aborted = abort]) /\ (g1.best.set = FALSE \/ FLt(s1.best, g1.best.f))
     IN /\ errs' = e
        /\ IF cont THEN /\ ph' = "ask" /\ s' = s1 /\ g' = g1 /\ pend' = 0
           ELSE /\ ph' = af.ph /\ s' = af.s /\ pend' = EdmEvals(C)
                /\ g' = IF cap THEN [af.g EXCEPT !.rep = i, !.sts = IF abort THEN {CONT} ELSE st \ {CONT}] ELSE af.g
        /\ allowed' = IF abort THEN {CONT} ELSE st \ {CONT}

TPlot ==
  /\ E.e = "plot"
  /\ i' = i + 1
  /\ errs' = Chk("C17", "plot follows the report of its iteration",
                 i > 1 /\ Ev[i-1].e = "rep" /\ Ev[i-1].rc = 0 /\ Ev[i-1].niter = E.niter /\ Ev[i-1].fevals = E.fevals)
  /\ UNCHANGED <<rid, ph, s, g, pend, allowed>>

TAsk ==
  /\ E.e = "ask"
  /\ i' = i + 1
  /\ errs' = Chk("C17", "event order", ph = "ask")
        \cup Chk("C01", "evaluations while sampling", Len(E.calls) = AskEvals(C))
        \cup Chk("C01", "number of candidates", E.n = s.lambda /\ E.rows = C.dim)
        \cup Chk("C19", "user gradient is called once per iteration", C.grad = 2 => E.ngrad = 1)
  /\ s' = [s EXCEPT !.nevals = @ + AskEvals(C)]
  /\ g' = [g EXCEPT !.total = @ + AskEvals(C)]
  /\ ph' = "eval"
  /\ UNCHANGED <<rid, pend, allowed>>

TEval ==
  /\ E.e = "eval"
  /\ i' = i + 1
  /\ LET n == s.lambda
         nre == Len(E.calls) - n
         fs == Fs(E.cand)
         vals == IF C.mt \/ Len(E.calls) < n THEN fs ELSE [k \in 1..n |-> In(E.calls[k].f)]
         pops == EvalPops(C, s, g, vals)
         ok == \E p \in pops : SameSeq(Fs(p), fs)
         pop == IF ok THEN CHOOSE p \in pops : SameSeq(Fs(p), fs) ELSE [k \in 1..Len(fs) |-> Cand(fs[k])]
         nre1 == IF nre < 0 THEN 0 ELSE nre
     IN /\ errs' = Chk("C17", "event order", ph = "eval")
             \cup Chk("C01", "one evaluation per candidate", IF C.uh THEN nre >= 1 ELSE nre = 0)
             \cup Chk("C01", "fevals after eval", E.fevals = s.nevals + Len(E.calls))
             \cup Chk("C07", "population after re-injection", (C.elit # 0 /\ ~C.mt) => ok)
             \cup Chk("C04", "values of the population", (C.elit = 0 /\ ~C.mt) => ok)
             \cup Chk("C09", "values of the population", (C.elit = 0 /\ ~C.mt) => ok)
        /\ s' = EvalStep(C, s, pop, nre1)
        /\ g' = [g EXCEPT !.total = @ + Len(E.calls)]
        /\ ph' = "tell"
        /\ UNCHANGED <<rid, pend, allowed>>

TTell ==
  /\ E.e = "tell"
  /\ i' = i + 1
  /\ LET fs == Fs(E.cand)
         srt == StableSort(s.pop)
         ok == IF C.uh THEN SamePerm(fs, Fs(s.pop)) ELSE SameSeq(fs, Fs(srt))
         pop == IF ok /\ ~C.uh THEN srt ELSE [k \in 1..Len(fs) |-> Cand(fs[k])]
         s1 == TellStep(C, s, pop)
     IN /\ errs' = Chk("C17", "event order", ph = "tell")
             \cup Chk("C04", "ranking", ok)
             \cup Chk("C01", "evaluations while telling", E.calls = <<>>)
             \cup Chk("C04", "best candidate", SameCand(E.best, Cand(s1.best)))
             \cup Chk("C04", "best seen", SameCand(E.bseen, s1.bseen))
             \cup Chk("C04", "worst seen", SameCand(E.wseen, s1.wseen))
             \cup Chk("C07", "the best solution is never lost",
                      (C.elit = 1) => ~FLt(s1.bseen.f, E.bseen.f))
        /\ s' = IncStep(s1)
        /\ ph' = "check"
        /\ UNCHANGED <<rid, g, pend, allowed>>

TPoke == E.e = "poke" /\ i' = i + 1 /\ errs' = {} /\ UNCHANGED <<rid, ph, s, g, pend, allowed>>

\* what the text of a status says
Text == CONDITIONCOV :> "error" @@ TOLUPSIGMA :> "error" @@ TOLHISTFUN :> "success" @@ FTARGET :> "success" @@ TOLX :> "partial"
        @@ NOEFFECTAXIS :> "partial" @@ NOEFFECTCOOR :> "partial" @@ EQUALFUNVALS :> "partial" @@ STAGNATION :> "partial"
Tag(m) == IF m = "[Error]" THEN "error" ELSE IF m = "[Success]" THEN "success" ELSE IF m = "[Partial Success]" THEN "partial" ELSE "none"

TEnd ==
  /\ E.e = "end"
  /\ i' = i + 1
  /\ LET single == C.strat = "single"
         ext == Has(C, "ext") /\ C.ext       \* the user's own loop has no return code
         stOk == E.status \in allowed
     IN errs' = Chk("C17", "event order", ph = "final")
           \cup Chk("C01", "calls after the loop", Len(E.calls) = pend)
           \cup Chk("C01", "total calls", E.total = g.total + pend)
           \cup (IF single THEN StateChecks(E, s) ELSE {})
           \cup Chk("C03", "status", single => stOk)
           \cup Chk("C02", "budget status", (single /\ E.status \in Budget) => stOk)
           \cup Chk("C03", "status of the run returned", ~single => E.status \in g.sts)
           \cup Chk("C03", "return code", ext \/ E.ret = (IF E.status >= 0 THEN 0 ELSE -1))
           \cup Chk("C03", "status text", E.status \in DOMAIN Text => Tag(E.msg) = Text[E.status])
           \cup Chk("C04", "best solution is the best candidate", Same(E.bsol.f, E.best.f))
           \cup Chk("C05", "the best run is returned",
                    C.strat = "ipop" => (Same(E.best.f, g.best.f) \/ (g.best.niter = 0 /\ Has(C, "warm"))) /\ E.niter = g.best.niter /\ E.fevals = g.best.nevals)
           \cup Chk("C06", "the best run is returned",
                    C.strat = "bipop" => (Same(E.best.f, g.best.f) \/ (g.best.niter = 0 /\ Has(C, "warm"))) /\ E.niter = g.best.niter /\ E.fevals = g.best.nevals)
           \cup (IF single \/ g.rep = 0 THEN {} ELSE
                LET r == Ev[g.rep] IN
                Chk(IF C.strat = "ipop" THEN "C05" ELSE "C06", "the solution returned is that of the best run",
                    /\ Same(E.sigma, r.sigma) /\ E.size = r.size /\ SameCand(E.bseen, r.bseen) /\ SameCand(E.wseen, r.wseen)
                    /\ (Has(E, "xmean") /\ Has(r, "xmean")) => SameSeq(E.xmean, r.xmean)))
           \cup Chk("C17", "nothing after the end", i = Len(Ev))
  /\ ph' = "over"
  /\ UNCHANGED <<rid, s, g, pend, allowed>>

Next == i <= Len(Ev) /\ (TRep \/ TPlot \/ TAsk \/ TEval \/ TTell \/ TPoke \/ TEnd)

\* every run must have been consumed up to its last event, which is "end"
Done == i = Len(Ev) + 1 => (ph = "over" \/ Prop \notin {"C17", "ALL"})
OK == errs = {}
Spec == Init /\ [][Next]_vars
Al == [rid |-> rid, run |-> Runs[rid].run, i |-> i, errs |-> errs, kind |-> IF i > 1 THEN Ev[i-1].e ELSE "init"]
=============================================================================
