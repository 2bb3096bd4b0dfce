------------------------------ MODULE ParEval ------------------------------
(***************************************************************************)
(* Evaluation of one population by a team of T threads: the candidates are *)
(* dealt out in contiguous blocks, each thread evaluates its block in      *)
(* order, evaluations overlap arbitrarily, and the iteration goes on only  *)
(* when all are complete.  TLC explores every interleaving of starts and   *)
(* completions; every completion order is printed and forced upon the real *)
(* code by the driver's gate (C11).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

N == atoi(IOEnv.PN)
T == atoi(IOEnv.PT)
Gen == "GEN" \in DOMAIN IOEnv /\ IOEnv.GEN = "1"

VARIABLES nxt, cur, slot, calls, order, joined
vars == <<nxt, cur, slot, calls, order, joined>>

q == N \div T
r == N % T
Lo(t) == IF t <= r THEN (t-1)*(q+1) + 1 ELSE r*(q+1) + (t-1-r)*q + 1
Hi(t) == IF t <= r THEN t*(q+1) ELSE r*(q+1) + (t-r)*q
Value(c) == c * c + 1           \* the value of a candidate's own point: pairwise different

Init == /\ nxt = [t \in 1..T |-> Lo(t)]
        /\ cur = [t \in 1..T |-> 0]
        /\ slot = [c \in 1..N |-> 0]
        /\ calls = [c \in 1..N |-> 0]
        /\ order = <<>>
        /\ joined = FALSE

Start(t) == /\ cur[t] = 0 /\ nxt[t] <= Hi(t)
            /\ cur' = [cur EXCEPT ![t] = nxt[t]]
            /\ nxt' = [nxt EXCEPT ![t] = @ + 1]
            /\ calls' = [calls EXCEPT ![nxt[t]] = @ + 1]
            /\ UNCHANGED <<slot, order, joined>>
Complete(t) == /\ cur[t] # 0
               /\ slot' = [slot EXCEPT ![cur[t]] = Value(cur[t])]
               /\ order' = Append(order, cur[t])
               /\ cur' = [cur EXCEPT ![t] = 0]
               /\ UNCHANGED <<nxt, calls, joined>>
Join == /\ ~joined
        /\ \A t \in 1..T : cur[t] = 0 /\ nxt[t] > Hi(t)
        /\ joined' = TRUE
        /\ (Gen => PrintT("ORD " \o ToJson(order)))
        /\ UNCHANGED <<nxt, cur, slot, calls, order>>
Next == (\E t \in 1..T : Start(t) \/ Complete(t)) \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnceEach == \A c \in 1..N : calls[c] <= 1
OwnValue == \A c \in 1..N : slot[c] \in {0, Value(c)}
AllDone == joined => \A c \in 1..N : slot[c] = Value(c) /\ calls[c] = 1
Ends == <>joined
=============================================================================
