------------------------------- MODULE MCDim -------------------------------
(***************************************************************************)
(* Histories of removals and insertions of dimensions: a vector of labels  *)
(* and a matrix of labels (100 i + j), every program up to a length.       *)
(* Each finished program is printed and given to the real code.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
L == IF "LEN" \in DOMAIN IOEnv THEN atoi(IOEnv.LEN) ELSE 3
N == IF "DIM" \in DOMAIN IOEnv THEN atoi(IOEnv.DIM) ELSE 3
VARIABLES n0, v, rows, cols, prog
vars == <<n0, v, rows, cols, prog>>
RemoveAt(s, k) == [q \in 1..(Len(s) - 1) |-> IF q <= k THEN s[q] ELSE s[q + 1]]
InsertAt(s, k, e) == [q \in 1..(Len(s) + 1) |-> IF q <= k THEN s[q] ELSE IF q = k + 1 THEN e ELSE s[q - 1]]
Init == n0 \in 1..N /\ v = [k \in 1..n0 |-> k] /\ rows = [k \in 1..n0 |-> k - 1] /\ cols = rows /\ prog = <<>>
Step(a, k) == prog' = Append(prog, <<a, k>>) /\ UNCHANGED n0
Remove == \E k \in 0..(Len(v) - 1) : v' = RemoveAt(v, k) /\ Step("r", k) /\ UNCHANGED <<rows, cols>>
Add == Len(v) <= N /\ \E k \in 0..Len(v) : v' = InsertAt(v, k, 100 + Len(prog)) /\ Step("a", k) /\ UNCHANGED <<rows, cols>>
Row == Len(rows) > 1 /\ \E k \in 0..(Len(rows) - 1) : rows' = RemoveAt(rows, k) /\ Step("R", k) /\ UNCHANGED <<v, cols>>
Col == Len(cols) > 1 /\ \E k \in 0..(Len(cols) - 1) : cols' = RemoveAt(cols, k) /\ Step("C", k) /\ UNCHANGED <<v, rows>>
Done == Len(prog) = L /\ PrintT("DIM " \o ToJson([n |-> n0, prog |-> prog, v |-> v, rows |-> rows, cols |-> cols])) /\ UNCHANGED vars
Next == (Len(prog) < L /\ (Remove \/ Add \/ Row \/ Col)) \/ Done
Spec == Init /\ [][Next]_vars
\* the surviving original entries keep their order and no entry appears twice
Orig(s) == SelectSeq(s, LAMBDA e : e < 100)
Sorted(s) == \A a, b \in 1..Len(s) : a < b => s[a] < s[b]
Kept == Sorted(Orig(v)) /\ Sorted(rows) /\ Sorted(cols)
Once == Cardinality({v[k] : k \in 1..Len(v)}) = Len(v)
\* removing a set of dimensions does not depend on how it is listed, if the highest go first
RECURSIVE Down(_, _)
Down(s, ks) == IF ks = {} THEN s ELSE LET m == CHOOSE m \in ks : \A q \in ks : q <= m IN Down(RemoveAt(s, m), ks \ {m})
SetRemoval == \A ks \in SUBSET (0..(Len(v) - 1)) :
   Down(v, ks) = LET idx == SelectSeq([k \in 1..Len(v) |-> k], LAMBDA k : k - 1 \notin ks) IN [q \in 1..Len(idx) |-> v[idx[q]]]
=============================================================================
