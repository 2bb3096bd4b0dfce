-------------------------------- MODULE MCCma --------------------------------
(***************************************************************************)
(* The life cycle with every input chosen by TLC: objective values, user   *)
(* aborts and (for restart strategies) population sizes.  Checked          *)
(* exhaustively within the bounds of Configs; every complete behaviour is  *)
(* also printed (GEN = "1") with the objective values and the abort that   *)
(* produce it, and is replayed into the real code by the checks.           *)
(***************************************************************************)
EXTENDS Cma, Json, IOUtils

Gen == "GEN" \in DOMAIN IOEnv /\ IOEnv.GEN = "1"
Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
Sel == IF "SEL" \in DOMAIN IOEnv THEN IOEnv.SEL ELSE "all"

CritMap(on) == [k \in {ToString(x) : x \in Codes} |-> k \in {ToString(x) : x \in on}]
Base == [dim |-> 2, lambda |-> 2, elit |-> 0, inifv |-> FALSE, maxiter |-> 3, maxfevals |-> -1, ftarget |-> "-Infinity",
         ftol |-> "1e-12", maxhist |-> -1, uh |-> FALSE, grad |-> 0, edm |-> FALSE, mt |-> FALSE, strat |-> "single",
         restarts |-> 3, vd |-> FALSE, sigma0 |-> "0.5",
         crit |-> CritMap({TOLHISTFUN, EQUALFUNVALS, STAGNATION, AUTOMAXITER, MAXFEVALS, MAXITER, FTARGET}),
         vals |-> {0, 1, 2}, abort |-> FALSE, sel |-> "none"]

Singles ==
     {[Base EXCEPT !.sel = "single", !.elit = e, !.inifv = f, !.maxiter = 3] : e \in 0..2, f \in {FALSE}}
  \cup {[Base EXCEPT !.sel = "single", !.inifv = TRUE, !.maxiter = 2, !.edm = d] : d \in BOOLEAN}
  \cup {[Base EXCEPT !.sel = "elit", !.elit = e, !.maxiter = 4, !.vals = {0, 1}] : e \in {3}}
  \cup {[Base EXCEPT !.sel = "elit", !.elit = e, !.maxiter = 2, !.lambda = 4, !.vals = {0, 1, 2}, !.crit = CritMap({MAXITER})] : e \in {1, 2}}
  \cup {[Base EXCEPT !.sel = "elit", !.elit = e, !.maxiter = 2, !.lambda = 5, !.vals = {0, 1}, !.crit = CritMap({MAXITER})] : e \in {1, 2}}
  \cup {[Base EXCEPT !.sel = "elit", !.elit = e, !.maxiter = 3, !.lambda = 3, !.vals = {0, 1}] : e \in {1, 2}}
Budgets ==
     {[Base EXCEPT !.sel = "budget", !.elit = e, !.maxiter = 4, !.maxfevals = b, !.vals = {0, 1}, !.edm = d] : e \in {0, 1}, b \in {1, 2, 3, 4, 5, 6, 7}, d \in BOOLEAN}
  \cup {[Base EXCEPT !.sel = "budget", !.maxiter = 3, !.ftarget = t, !.vals = {0, 1, 2}] : t \in {"0.0", "1.0", "2.0", "-1.0"}}
  \cup {[Base EXCEPT !.sel = "budget", !.maxiter = m, !.maxfevals = b, !.ftarget = "0.0", !.vals = {0, 1}] : m \in 1..3, b \in {2, 3, 4, 6}}
  \cup {[Base EXCEPT !.sel = "budget", !.maxiter = 2, !.lambda = 3, !.maxfevals = b, !.vals = {0, 1}] : b \in {3, 4, 5, 6}}
Crits ==
     {[Base EXCEPT !.sel = "crit", !.maxhist = h, !.maxiter = 4, !.vals = {0, 1}, !.crit = CritMap(on)]
        : h \in {1, 2, 3}, on \in {{TOLHISTFUN, MAXITER}, {EQUALFUNVALS, MAXITER}, {TOLHISTFUN, EQUALFUNVALS, MAXITER}, {MAXITER}}}
  \cup {[Base EXCEPT !.sel = "crit", !.maxhist = 2, !.maxiter = 3, !.ftarget = "1.0", !.maxfevals = 4, !.vals = {0, 1}, !.crit = CritMap(on)]
        : on \in {{TOLHISTFUN, MAXFEVALS, MAXITER, FTARGET}, {MAXFEVALS, MAXITER, FTARGET}, {MAXITER, FTARGET}, {MAXFEVALS, MAXITER}, {TOLHISTFUN, MAXITER}}}
  \cup {[Base EXCEPT !.sel = "crit", !.maxhist = 2, !.ftol = "1.5", !.maxiter = 3, !.crit = CritMap({TOLHISTFUN, MAXITER})]}
Aborts ==
     {[Base EXCEPT !.sel = "abort", !.abort = TRUE, !.maxiter = 2, !.elit = e, !.vals = {0, 1}, !.strat = t, !.restarts = 2]
        : e \in {0, 1}, t \in {"single", "ipop", "bipop"}}
  \cup {[Base EXCEPT !.sel = "abort", !.abort = TRUE, !.maxiter = 4, !.elit = 3, !.vals = {0, 1}, !.strat = "single"]}
Restarts ==
     {[Base EXCEPT !.sel = "ipop", !.strat = "ipop", !.restarts = r, !.maxiter = 1, !.vals = {0, 1}] : r \in {1, 2}}
  \cup {[Base EXCEPT !.sel = "ipop", !.strat = "ipop", !.restarts = 3, !.maxiter = 1, !.vals = {0, 1}, !.maxfevals = b] : b \in {-1, 2, 3, 6}}
  \cup {[Base EXCEPT !.sel = "ipop", !.strat = "ipop", !.restarts = 2, !.maxiter = 1, !.elit = e, !.edm = d] : e \in {0, 1}, d \in {TRUE}}
  \cup {[Base EXCEPT !.sel = "ipop", !.strat = "ipop", !.restarts = 2, !.maxiter = 2, !.vals = {0, 1}, !.maxfevals = b] : b \in {-1, 4}}
  \cup {[Base EXCEPT !.sel = "bipop", !.strat = "bipop", !.restarts = r, !.maxiter = 1, !.vals = {0, 1}, !.elit = e] : r \in {1, 2}, e \in {0, 1}}
  \cup {[Base EXCEPT !.sel = "bipop", !.strat = "bipop", !.restarts = 2, !.maxiter = 2, !.vals = {0, 1}, !.ftarget = "0.0"]}
DeepOnes ==
     {[Base EXCEPT !.sel = "single", !.elit = e, !.maxiter = 4] : e \in 0..2}
  \cup {[Base EXCEPT !.sel = "elit", !.elit = 3, !.maxiter = 5, !.vals = {0, 1}]}
  \cup {[Base EXCEPT !.sel = "elit", !.elit = e, !.maxiter = 3, !.lambda = 4, !.vals = {0, 1}] : e \in {1, 2}}
  \cup {[Base EXCEPT !.sel = "elit", !.elit = e, !.maxiter = 2, !.lambda = 6, !.vals = {0, 1}, !.crit = CritMap({MAXITER})] : e \in {1, 2}}
  \cup {[Base EXCEPT !.sel = "budget", !.elit = e, !.inifv = f, !.maxiter = 5, !.maxfevals = b, !.vals = {0, 1}] : e \in 0..2, b \in 1..11, f \in BOOLEAN}
  \cup {[Base EXCEPT !.sel = "crit", !.maxhist = h, !.maxiter = 6, !.vals = {0, 1}] : h \in 1..5}
  \cup {[Base EXCEPT !.sel = "crit", !.maxhist = h, !.dim = d, !.maxiter = 5, !.vals = {0, 1}] : h \in 1..4, d \in {1, 3}}
  \cup {[Base EXCEPT !.sel = "crit", !.maxhist = 3, !.lambda = 3, !.maxiter = 4, !.vals = {0, 1}, !.crit = CritMap({EQUALFUNVALS, MAXITER})]}
  \cup {[Base EXCEPT !.sel = "ipop", !.strat = "ipop", !.restarts = 2, !.maxiter = 2, !.vals = {0, 1}, !.elit = e] : e \in {0, 1, 2}}
  \cup {[Base EXCEPT !.sel = "ipop", !.strat = "ipop", !.restarts = 3, !.maxiter = 1, !.vals = {0, 1}, !.maxfevals = b, !.elit = 1] : b \in 1..9}
  \cup {[Base EXCEPT !.sel = "bipop", !.strat = "bipop", !.restarts = 3, !.maxiter = 1, !.vals = {0, 1}, !.crit = CritMap({MAXITER})]}
  \cup {[Base EXCEPT !.sel = "abort", !.abort = TRUE, !.maxiter = 3, !.elit = e, !.vals = {0, 1}, !.strat = t, !.restarts = 2] : e \in 0..2, t \in {"single", "ipop"}}
Configs == {k \in Singles \cup Budgets \cup Crits \cup Aborts \cup Restarts \cup (IF Deep THEN DeepOnes ELSE {}) : Sel = "all" \/ k.sel = Sel}

VARIABLES c, ph, s, g, calls, runcalls, mn, mx, status, script, log, nrep, aborted, ended
vars == <<c, ph, s, g, calls, runcalls, mn, mx, status, script, log, nrep, aborted, ended>>

Init == /\ c \in Configs
        /\ ph = "start" /\ s = NewRun(c, c.lambda, c.sigma0, c.maxfevals) /\ g = NewG(c)
        /\ calls = 0 /\ runcalls = 0 /\ mn = "NaN" /\ mx = "NaN" /\ status = 0
        /\ script = <<>> /\ log = <<>> /\ nrep = 0 /\ aborted = FALSE /\ ended = FALSE

F2(a, b) == IF FIsNaN(a) THEN b ELSE IF FLt(b, a) THEN b ELSE a
F2x(a, b) == IF FIsNaN(a) THEN b ELSE IF FLt(a, b) THEN b ELSE a
Zeros(n) == [k \in 1..n |-> 0]
Say(x) == IF Gen THEN Append(log, x) ELSE log
Feed(v) == IF Gen /\ v # <<>> THEN Append(script, v) ELSE script      \* one block per evaluation phase

Start ==
  /\ ph = "start"
  /\ LET lams == IF s.lambda # 0 THEN {s.lambda} ELSE {l \in 1..8 : SmallLambdaOk(c, g, l)} \ {1}
     IN \E l \in lams :
        LET s0 == [s EXCEPT !.lambda = l]
        IN IF NeedsInitial(c, g)
           THEN \E v \in (IF g.elitrestart THEN {mn} ELSE c.vals) :     \* an elitist restart re-evaluates the best seen point
                  /\ s' = BeginStep(c, s0, v)
                  /\ calls' = calls + 1 /\ runcalls' = runcalls + 1
                  /\ g' = [g EXCEPT !.total = @ + 1]
                  /\ mn' = v /\ mx' = "NaN"
                  /\ script' = Feed(<<v>>)
           ELSE /\ s' = s0 /\ UNCHANGED <<calls, runcalls, g, script>> /\ mn' = "NaN" /\ mx' = "NaN"
  /\ ph' = "stop"
  /\ UNCHANGED <<c, status, log, nrep, aborted, ended>>

F(x) == IF x.set THEN x.f ELSE "NaN"
Report == <<s.niter, s.nevals, s.best, F(s.bseen), F(s.wseen), s.lambda>>

\* the end of a run: what the strategy does next
Finish(st, ab) ==
  LET a == AfterStop(c, s, [g EXCEPT !.aborted = ab])
      n == EdmEvals(c)
      fresh == a.ph = "start"
  IN /\ ph' = IF fresh THEN "start" ELSE "final"
     /\ s' = a.s
     /\ g' = [a.g EXCEPT !.total = @ + n]
     /\ calls' = calls + n
     \* an elitist restart keeps counting within the same run
     /\ runcalls' = IF ~fresh THEN runcalls + n ELSE IF a.g.elitrestart /\ a.s.nevals # 0 THEN calls + n ELSE 0
     /\ script' = Feed(Zeros(n))
     /\ status' = st /\ aborted' = ab
     /\ log' = Say(Report) /\ nrep' = nrep + 1
     /\ UNCHANGED <<c, mn, mx, ended>>

Stop ==
  /\ ph = "stop"
  /\ \/ /\ c.abort /\ Finish(0, TRUE)
     \/ \E st \in StopStatuses(c, s, [k \in Codes |-> "F"]) :
          IF st # CONT THEN Finish(st, FALSE)
          ELSE /\ ph' = "iter" /\ log' = Say(Report) /\ nrep' = nrep + 1
               /\ UNCHANGED <<c, s, g, calls, runcalls, mn, mx, status, script, aborted, ended>>

\* the order of the values within a population is irrelevant (the replay shuffles it)
PopVals(n) == {f \in [1..n -> c.vals] : \A k \in 1..(n-1) : f[k] <= f[k+1]}
SeqMin(v) == CHOOSE x \in {v[k] : k \in 1..Len(v)} : \A k \in 1..Len(v) : x <= v[k]
SeqMax(v) == CHOOSE x \in {v[k] : k \in 1..Len(v)} : \A k \in 1..Len(v) : x >= v[k]

Iter ==
  /\ ph = "iter"
  /\ \E v \in PopVals(s.lambda) :
       LET vals == [k \in 1..s.lambda |-> v[k]] IN
       \E pop \in EvalPops(c, s, g, vals) :
          /\ s' = IncStep(TellStep(c, EvalStep(c, s, pop, 0), StableSort(pop)))
          /\ calls' = calls + s.lambda /\ runcalls' = runcalls + s.lambda
          /\ g' = [g EXCEPT !.total = @ + s.lambda]
          /\ mn' = F2(mn, SeqMin(vals))
          /\ mx' = F2x(mx, MaxOf(Vals(pop)))
          /\ script' = Feed(vals)
  /\ ph' = "stop"
  /\ UNCHANGED <<c, status, log, nrep, aborted, ended>>

Emit ==
  /\ ph = "final" /\ ~ended /\ ended' = TRUE
  /\ Gen => PrintT("BEH " \o ToJson([cfg |-> [c EXCEPT !.vals = 0], script |-> script, log |-> log, status |-> status, abort |-> IF aborted THEN nrep ELSE 0,
                     calls |-> calls, res |-> IF c.strat = "single" THEN <<s.niter, s.nevals, s.best>> ELSE <<g.best.niter, g.best.nevals, g.best.f>>]))
  /\ UNCHANGED <<c, ph, s, g, calls, runcalls, mn, mx, status, script, log, nrep, aborted>>

Next == Start \/ Stop \/ Iter \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Stop \/ Iter \/ Emit)

(* ------------------------------ properties ------------------------------- *)
\* C01: the counter is the number of calls
Accounting == /\ ph \in {"stop", "iter"} => s.nevals = runcalls
              /\ g.total = calls
\* C02: budgets
BudgetIter == s.niter <= c.maxiter
BudgetEvals == (c.strat = "single" /\ ~g.elitrestart /\ c.maxfevals > 0 /\ c.crit["8"] /\ ph \in {"stop", "iter"})
                  => calls < c.maxfevals + c.lambda + 1
NoIterationBeyond == ph = "iter" => /\ (s.niter > 0 => s.niter < c.maxiter)
                                     /\ (s.niter > 0 /\ s.maxfevals > 0 /\ c.crit["8"] => s.nevals < s.maxfevals)
IpopBudget == (c.strat = "ipop" /\ c.maxfevals > 0 /\ ph = "start" /\ g.r > 0) => g.total < c.maxfevals
\* C04
Tracking == ph \in {"stop", "iter"} =>
              /\ s.bseen.set => FEq(s.bseen.f, mn)
              /\ s.bseen.set <=> (s.niter > 0 \/ s.initial.set)
              /\ s.wseen.set => FEq(s.wseen.f, mx)
              /\ Len(s.hist) > 0 => FEq(s.hist[Len(s.hist)], s.best)
\* C07
ElitNoLoss == (c.elit = 1 /\ s.niter >= 2) => FEq(s.best, s.bseen.f)
ElitInitial == (c.elit = 2 /\ s.niter >= 2) => ~FLt(s.initial.f, s.best)
ElitRestartOnce == (c.elit = 3 /\ ph = "final" /\ ~aborted) =>
                      (~FLt(s.bseen.f, s.best) \/ s.niter - s.bseeniter < 3)
\* C05 / C06
RunCount == g.r < c.restarts
BipopPowers == c.strat = "bipop" => \E k \in 0..8 : g.lambdal = c.lambda * (2^k)
BipopBalance == (c.strat = "bipop" /\ g.kind = "small" /\ ph \in {"stop", "iter"}) => g.b1 < g.b0
\* C17: an abort is followed by nothing but the end
AbortEnds == aborted => ph = "final"
StatusEnd == (ph = "final" /\ ~aborted) => status # 0
ReportsPerRun == (Gen /\ c.strat = "single" /\ ~g.elitrestart) => (ph \in {"iter", "stop"} => nrep = s.niter + (IF ph = "iter" THEN 1 ELSE 0))
Terminates == <>(ph = "final")
=============================================================================
