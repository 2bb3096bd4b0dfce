-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers for TLC.  A double is represented by  *)
(* its (round-trippable) decimal string, e.g. "0.1", "Infinity", "NaN".    *)
(* The operators below are evaluated by F64.java (a TLC module override);  *)
(* the TLA+ bodies are placeholders that give only arity.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

FAdd(a, b) == a
FSub(a, b) == a
FMul(a, b) == a
FDiv(a, b) == a
FSqrt(a)   == a
FLog(a)    == a
FExp(a)    == a
FPow(a, b) == a
FAbs(a)    == a
FFloor(a)  == a
FCeil(a)   == a
FNeg(a)    == a
FMin(a, b) == a
FMax(a, b) == a
FFromInt(n) == ""
FToInt(a)   == 0        \* truncation; a must fit a TLC integer
FLt(a, b)  == FALSE
FLe(a, b)  == FALSE
FEq(a, b)  == FALSE     \* IEEE ==
FIsNaN(a)  == FALSE
FIsFinite(a) == FALSE
\* |a-b| <= tol * max(|a|,|b|,floor): relative comparison with an absolute floor
FClose(a, b, tol, floor) == FALSE

(* sorting and order statistics of sequences of doubles; F64.java computes   *)
(* the same functions in n log n                                             *)
CountLess(v, r) == Cardinality({k \in 1..Len(v) : FLt(v[k], r)})
SortPerm(v) ==      \* SortPerm(v)[p] = index of the p-th smallest, ties by index
  LET rank(k) == 1 + Cardinality({j \in 1..Len(v) : FLt(v[j], v[k]) \/ (~FLt(v[k], v[j]) /\ j < k)})
  IN [p \in 1..Len(v) |-> CHOOSE k \in 1..Len(v) : rank(k) = p]
NthSmallest(v, k) == v[SortPerm(v)[k]]
SameOrder(u, v) ==  \* two sequences of doubles are ordered alike
  Len(u) = Len(v) /\ \A a, b \in 1..Len(u) : FLt(u[a], u[b]) <=> FLt(v[a], v[b])

\* vectors (sequences of doubles)
VAdd(u, v) == u
VSub(u, v) == u
VScale(s, v) == v
VDot(u, v) == ""
VNorm(u)   == ""
VMulEl(u, v) == u
VDivEl(u, v) == u
VSqrtEl(u) == u
VSum(u) == ""
VMaxAbs(u) == ""
\* matrices are sequences of rows
MVMul(m, v) == v
MMul(m, n) == m
MTrans(m) == m
MAdd(m, n) == m
MScale(s, m) == m
MOuter(u, v) == u
VClose(u, v, tol, floor) == FALSE
MClose(m, n, tol, floor) == FALSE
MSub(m, n) == m
MMulEl(m, n) == m
MRowScale(w, m) == m         \* row i times w[i]
MDiag(v) == v                \* diagonal matrix
\* symmetric matrices, by eigen-decomposition (negative eigenvalues count as 0 in roots)
MEigs(m) == <<>>             \* eigenvalues, ascending
MSqrt(m) == m
MInvSqrt(m) == m
VMax(u) == ""
VMin(u) == ""

a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
=============================================================================
