------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The settings of an optimization: a program is any sequence of setter    *)
(* calls, its meaning is the last value given to each setting.  TLC        *)
(* generates programs (simulation); each is run on the real code next to   *)
(* the canonical program of its meaning, in another order (C18).           *)
(*                                                                         *)
(* Choosing an algorithm by a name with a diagonal or VD covariance also   *)
(* switches that covariance model on, for good; choosing by code does so   *)
(* when the search starts.  Unknown names mean nothing.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Names == <<"cmaes", "ipop", "bipop", "acmaes", "aipop", "abipop", "sepcmaes", "sepipop", "sepbipop", "sepacmaes",
           "sepaipop", "sepabipop", "vdcma", "vdipopcma", "vdbipopcma">>
Unknown == {"nosuch", "sepnosuch", "CMAES", "vd", "sep", "ipopcma"}
L == atoi(IOEnv.LEN)
\* "all": any setting at any time; "one": the values of one setting, one after the other;
\* "mix": a few settings again and again, among choices of the algorithm and fixed parameters
Focus == IOEnv.FOCUS

Plain == [maxiter |-> {"3", "5", "7"}, maxfevals |-> {"20", "60", "-1"}, ftarget |-> {"1.0", "0.001", "-5.0"},
          ftol |-> {"0.001", "1e-12", "0.5"}, xtol |-> {"0.001", "1e-12", "0.3"}, maxhist |-> {"2", "5", "40"}, elitism |-> {"0", "1", "2", "3"},
          inifv |-> {"0", "1"}, uh |-> {"0", "1"}, tpa |-> {"0", "1", "2"}, grad |-> {"0", "1"}, edm |-> {"0", "1"}, mt |-> {"0", "1"},
          maximize |-> {"0", "1"}, lazy |-> {"0", "1"}, restarts |-> {"1", "2", "3"}, setseed |-> {"7", "99", "123456"},
          setx0 |-> {"0.5", "-2.0"}]
CritCodes == {"-15", "-13", "1", "2", "3", "5", "6", "7", "8", "10"}
Fixable == {"0", "2", "4"}
FixVals == {"0.5", "-1.25", "3.0"}

VARIABLES prog, val, crit, fixed, algo, sep, vd, foc
vars == <<prog, val, crit, fixed, algo, sep, vd, foc>>

Init == /\ prog = <<>>
        /\ val = [k \in DOMAIN Plain |-> "unset"]
        /\ crit = [k \in CritCodes |-> "unset"]
        /\ fixed = [k \in Fixable |-> "unset"]
        /\ algo = 0 /\ sep = FALSE /\ vd = FALSE
        /\ foc \in (CASE Focus = "all" -> {DOMAIN Plain}
                     [] Focus = "one" -> {{k} : k \in DOMAIN Plain}
                     [] Focus = "mix" -> {{k, l} : k, l \in DOMAIN Plain})

Add(k, v) == prog' = Append(prog, <<k, v>>)
Set(k) == \E v \in Plain[k] : Add(k, v) /\ val' = [val EXCEPT ![k] = v] /\ UNCHANGED <<crit, fixed, algo, sep, vd>>
NoTarget == Add("noftarget", "1") /\ val' = [val EXCEPT !.ftarget = "unset"] /\ UNCHANGED <<crit, fixed, algo, sep, vd>>
Crit(k) == \E v \in {"0", "1"} : Add("crit", k \o ":" \o v) /\ crit' = [crit EXCEPT ![k] = v] /\ UNCHANGED <<val, fixed, algo, sep, vd>>
Fix(k) == \E v \in FixVals : Add("fixed", k \o ":" \o v) /\ fixed' = [fixed EXCEPT ![k] = v] /\ UNCHANGED <<val, crit, algo, sep, vd>>
Unfix(k) == Add("unfix", k) /\ fixed' = [fixed EXCEPT ![k] = "unset"] /\ UNCHANGED <<val, crit, algo, sep, vd>>
IsSep(a) == a \in 6..11
IsVd(a) == a >= 12
\* a VD search needs its own update: it is not left again, nor combined with a diagonal covariance
Allowed(a) == (vd => IsVd(a)) /\ (sep => ~IsVd(a))
Name(a) == /\ Allowed(a)
           /\ Add("stralgo", Names[a+1]) /\ algo' = a
           /\ sep' = (sep \/ IsSep(a)) /\ vd' = (vd \/ IsVd(a))
           /\ UNCHANGED <<val, crit, fixed>>
Code(a) == /\ Allowed(a)
           /\ Add("algo", ToString(a)) /\ algo' = a /\ UNCHANGED <<val, crit, fixed, sep, vd>>
SetSep == ~IsVd(algo) /\ ~vd /\ Add("sep", "1") /\ sep' = TRUE /\ UNCHANGED <<val, crit, fixed, algo, vd>>
Bogus == \E u \in Unknown : Add("stralgo", u) /\ UNCHANGED <<val, crit, fixed, algo, sep, vd>>

Out == [prog |-> prog, val |-> val, crit |-> crit, fixed |-> fixed, algo |-> algo, sep |-> sep, vd |-> vd]
Next == /\ Len(prog) < L
        /\ UNCHANGED foc
        /\ \/ \E k \in foc : Set(k)
           \/ "ftarget" \in foc /\ NoTarget
           \/ /\ Focus = "all"
              /\ \/ \E k \in CritCodes : Crit(k)
                 \/ \E a \in 0..14 : Name(a)
                 \/ \E a \in 0..14 : Code(a)
           \/ /\ Focus # "one"
              /\ \/ \E k \in Fixable : Fix(k) \/ Unfix(k)
                 \/ SetSep
                 \/ Bogus
           \/ Focus = "mix" /\ \E a \in {0, 1, 3, 6, 8, 12} : Name(a)
Spec == Init /\ [][Next]_vars

\* the value of a setting is the last one given
LastOf(k) == LET s == SelectSeq(prog, LAMBDA p : p[1] = k) IN IF s = <<>> THEN "unset" ELSE s[Len(s)][2]
LastWins == \A k \in DOMAIN Plain \ {"ftarget"} : val[k] = LastOf(k)
Emit == Len(prog) = L => PrintT("PRG " \o ToJson(Out))
=============================================================================
