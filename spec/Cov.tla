-------------------------------- MODULE Cov ---------------------------------
(***************************************************************************)
(* The search distribution: strategy constants, and one update of mean,    *)
(* evolution paths, covariance and step-size from a ranked population      *)
(* (CMA-ES, active CMA-ES, separable variants, VD-CMA); injected points;   *)
(* the rank statistics of uncertainty handling.                            *)
(* c: configuration; K: constants; distributions are records               *)
(*   [m, sigma, cov | sep, v, ps, pc]                                      *)
(***************************************************************************)
EXTENDS CmaOps

N(k) == FFromInt(k)
Ones(n) == [k \in 1..n |-> "1.0"]
Zeros(n) == [k \in 1..n |-> "0.0"]
Sq(x) == x ** x

(* ------------------------------- constants ------------------------------- *)
RawWeights(mu) == [i \in 1..mu |-> FLog(N(mu + 1)) -- FLog(N(i))]
Weights(lambda) == LET raw == RawWeights(lambda \div 2) IN VScale("1.0" // VSum(raw), raw)
MuEff(w) == Sq(VSum(w)) // VDot(w, w)

Consts(c, lambda) ==
  LET d == N(c.dim)
      w == Weights(lambda)
      muw == MuEff(w)
      two == "2.0"
      c10 == two // (Sq(d ++ "1.3") ++ muw)
      rankmu == (two ** ((muw -- two) ++ ("1.0" // muw))) // (Sq(d ++ two) ++ muw)
      vdf == (d -- "5.0") // "6.0"
      c1 == IF c.sep THEN c10 ** ((d ++ two) // "3.0") ELSE IF c.vd THEN c10 ** vdf ELSE IF c.noisy THEN c10 ** "0.2" ELSE c10
      cmu == FMin("1.0" -- c1,
                  IF c.sep THEN (("0.3" ++ (muw -- two)) ++ ("1.0" // muw)) // ((d ++ ("4.0" ** FSqrt(d))) ++ (muw // two))
                  ELSE IF c.vd THEN vdf ** rankmu
                  ELSE IF c.noisy THEN "0.2" ** rankmu ELSE rankmu)
      cs == IF c.vd THEN FSqrt(muw) // (two ** (FSqrt(d) ++ FSqrt(muw)))
            ELSE (muw ++ two) // ((d ++ muw) ++ "5.0")
      cc == IF c.sep THEN (("1.0" ++ ("1.0" // d)) ++ (muw // d)) // ((FSqrt(d) ++ ("1.0" // d)) ++ ((two ** muw) // d))
            ELSE ("4.0" ++ (muw // d)) // ((d ++ "4.0") ++ ((two ** muw) // d))
      nd == N(c.dim - c.nfixed)
  IN [w |-> w, mu |-> lambda \div 2, muw |-> muw, c1 |-> c1, cmu |-> cmu, cs |-> cs, cc |-> cc,
      ds |-> IF c.tpa = 2 THEN "4.0" -- ("3.6" // FSqrt(d))
             ELSE ("1.0" ++ cs) ++ (two ** FMax("0.0", FSqrt((muw -- "1.0") // (d ++ "1.0")) -- "1.0")),
      fps |-> FSqrt((cs ** (two -- cs)) ** muw), fpc |-> FSqrt((cc ** (two -- cc)) ** muw),
      chi |-> FSqrt(nd) ** (("1.0" -- ("1.0" // ("4.0" ** nd))) ++ ("1.0" // ("21.0" ** Sq(nd)))),
      nd |-> nd,
      lazy |-> (("1.0" // (c1 ++ cmu)) // nd) // "10.0"]

(* sanity of the constants, checked over dimensions and population sizes *)
ConstsOk(K) ==
  /\ \A k \in 1..K.mu : FLt("0.0", K.w[k])
  /\ \A k \in 1..(K.mu - 1) : FLt(K.w[k + 1], K.w[k])
  /\ FClose(VSum(K.w), "1.0", "1e-12", "0.0")
  /\ FLe("0.999999", K.muw) /\ FLe(K.muw, N(K.mu) ++ "1e-9")
  /\ FLt("0.0", K.c1) /\ FLe("-1e-15", K.cmu) /\ FLe(K.c1 ++ K.cmu, "1.000000001")
  /\ FLt("0.0", K.cs) /\ FLt(K.cs, "1.0")
  /\ FLt("0.0", K.cc) /\ FLe(K.cc, "1.0")
  /\ FLt("0.0", K.ds) /\ FLt("0.0", K.chi)

(* --------------------------------- update -------------------------------- *)
Xs(cand, mu) == [k \in 1..mu |-> cand[k].x]
WSum(w, rows) == MVMul(MTrans(rows), w)                       \* sum of w[i] * rows[i]
Minus(rows, m) == [k \in 1..Len(rows) |-> VSub(rows[k], m)]
WOuter(w, rows) == MMul(MTrans(rows), MRowScale(w, rows))     \* sum of w[i] * rows[i] rows[i]^T
WSquare(w, rows) == MVMul(MTrans(MMulEl(rows, rows)), w)

NewMean(K, ranked) == WSum(K.w, Xs(ranked, K.mu))

\* whitened mean shift; dec is the covariance the current sampling root was computed from
Whiten(c, s, dec, y) ==
  IF c.vd THEN VDivEl(VDivEl(y, s.sep), VSqrtEl(VAdd(Ones(c.dim), VMulEl(s.v, s.v))))
  ELSE IF c.sep THEN VDivEl(y, VSqrtEl(s.sep))
  ELSE MVMul(MInvSqrt(dec), y)

NewPs(c, K, s, dec, y) == VAdd(VScale("1.0" -- K.cs, s.ps), VScale(K.fps, Whiten(c, s, dec, y)))
HsigBound(c, K, niter) ==
  (FSqrt("1.0" -- FPow("1.0" -- K.cs, N(2 * (niter + 1)))) ** ("1.4" ++ ("2.0" // (K.nd ++ "1.0")))) ** K.chi
\* whether the rank-one update is stalled; both answers are right within rounding of the bound
Hsigs(c, K, ps, niter) ==
  LET b == HsigBound(c, K, niter)
      n == VNorm(ps)
  IN IF FClose(b, n, "1e-9", "0.0") THEN {0, 1} ELSE IF FLt(n, b) THEN {1} ELSE {0}
NewPc(K, s, y, h) == VAdd(VScale("1.0" -- K.cc, s.pc), VScale(N(h) ** K.fpc, y))

CmaCov(c, K, s, ranked, pc, h) ==
  LET ys == MScale("1.0" // s.sigma, Minus(Xs(ranked, K.mu), s.m))
      keep == (("1.0" -- K.c1) -- K.cmu) ++ (N(1 - h) ** (K.c1 ** (K.cc ** ("2.0" -- K.cc))))
  IN IF c.sep THEN VAdd(VAdd(VScale(keep, s.sep), VScale(K.c1, VMulEl(pc, pc))), VScale(K.cmu, WSquare(K.w, ys)))
     ELSE MAdd(MAdd(MScale(keep, s.cov), MScale(K.c1, MOuter(pc, pc))), MScale(K.cmu, WOuter(K.w, ys)))

\* active: the worst half contributes negatively, as far as the covariance stays positive
AcmaCov(c, K, s, dec, ranked, pc) ==
  LET lambda == Len(ranked)
      worst == [k \in 1..K.mu |-> ranked[lambda + 1 - k]]
      yp == MScale("1.0" // s.sigma, Minus(Xs(ranked, K.mu), s.m))
      yn == MScale("1.0" // s.sigma, Minus(Xs(worst, K.mu), s.m))
      A == MInvSqrt(dec)
      maxeig == IF c.sep THEN VMax(VDivEl(WSquare(K.w, yn), s.sep)) ELSE VMax(MEigs(MMul(A, MMul(WOuter(K.w, yn), A))))
      limit == (("1.0" -- K.cmu) ** ("1.0" -- "0.66")) // maxeig
      rate == (("1.0" -- K.cmu) ** "0.25") ** (K.muw // (FPow(N(c.dim) ++ "2.0", "1.5") ++ ("2.0" ** K.muw)))
      cm == FMin(limit, rate)
      keep == (("1.0" -- K.c1) -- K.cmu) ++ ("0.5" ** cm)
      plus == K.cmu ++ ("0.5" ** cm)
  IN IF c.sep
     THEN VSub(VAdd(VAdd(VScale(keep, s.sep), VScale(K.c1, VMulEl(pc, pc))), VScale(plus, WSquare(K.w, yp))), VScale(cm, WSquare(K.w, yn)))
     ELSE MSub(MAdd(MAdd(MScale(keep, s.cov), MScale(K.c1, MOuter(pc, pc))), MScale(plus, WOuter(K.w, yp))), MScale(cm, WOuter(K.w, yn)))

\* VD: natural gradient on C = D (I + v v^T) D
VdStep(c, K, s, ranked, pc, h) ==
  LET one == Ones(c.dim)
      nv == VDot(s.v, s.v)
      rt == FSqrt(nv)
      vb == VScale("1.0" // rt, s.v)
      vbb == VMulEl(vb, vb)
      g == "1.0" ++ nv
      al == FMin("1.0", FSqrt(Sq(nv) ++ ((("2.0" -- ("1.0" // FSqrt(g))) ** g) // VMax(vbb))) // ("2.0" ++ nv))
      al2 == Sq(al)
      b == ("2.0" ** al2) -- (("1.0" -- al2) ** (Sq(nv) // g))
      ainv == VDivEl(one, VSub(VScale("2.0", one), VScale(b ++ ("2.0" ** al2), vbb)))
      abb == VMulEl(ainv, vbb)
      ys == [k \in 1..K.mu |-> VDivEl(VScale("1.0" // s.sigma, VSub(ranked[k].x, s.m)), s.sep)]
      ym == VDivEl(pc, s.sep)
      yv == MVMul(ys, vb)
      yvm == VDot(vb, ym)
      wy == MVMul(MTrans(ys), VMulEl(K.w, yv))
      pmu == VSub(VSub(WSquare(K.w, ys), VScale(nv // g, VMulEl(vb, wy))), one)
      qmu == VSub(wy, VScale("0.5" ** (VDot(K.w, VMulEl(yv, yv)) ++ g), vb))
      p1 == VSub(VSub(VMulEl(ym, ym), VScale((nv // g) ** yvm, VMulEl(vb, ym))), one)
      q1 == VSub(VScale(yvm, ym), VScale("0.5" ** (Sq(yvm) ++ g), vb))
      p == VAdd(VScale(K.cmu, pmu), VScale(N(h) ** K.c1, p1))
      q == VAdd(VScale(K.cmu, qmu), VScale(N(h) ** K.c1, q1))
      r == VSub(p, VScale(al // g, VSub(VScale("2.0" ++ nv, VMulEl(vb, q)), VScale(nv ** VDot(vb, q), vbb))))
      sv == VSub(VMulEl(r, ainv), VScale((b ** VDot(abb, r)) // ("1.0" ++ (b ** VDot(abb, vbb))), abb))
      ngv == VScale("1.0" // rt, VSub(q, VScale(al, VSub(VScale("2.0" ++ nv, VMulEl(vb, sv)), VScale(VDot(sv, vbb), vb)))))
  IN [v |-> VAdd(s.v, ngv), sep |-> VAdd(s.sep, VMulEl(s.sep, sv))]

VdFull(sep, v) == MMul(MDiag(sep), MMul(MAdd(MDiag(Ones(Len(v))), MOuter(v, v)), MDiag(sep)))
\* v from the covariance, up to its sign
VdV(sep, full) ==
  LET n == Len(sep)
      G == MSub(MMul(MDiag(VDivEl(Ones(n), sep)), MMul(full, MDiag(VDivEl(Ones(n), sep)))), MDiag(Ones(n)))
      k == CHOOSE a \in 1..n : \A b \in 1..n : FLe(G[b][b], G[a][a])
  IN VScale("1.0" // FSqrt(G[k][k]), G[k])

CsaSigma(K, s, ps) == s.sigma ** FExp((K.cs // K.ds) ** ((VNorm(ps) // K.chi) -- "1.0"))
TpaSigma(K, s, niter, ts) == IF niter > 0 THEN s.sigma ** FExp(ts // K.ds) ELSE s.sigma

(* ---------------------------- injected points ---------------------------- *)
GradEps(x) == VScale("1e-8", [k \in 1..Len(x) |-> "1.0" ++ FAbs(x[k])])
GradPoint(c, s, dec, g) ==
  LET n == N(c.dim)
  IN IF c.sep THEN VSub(s.m, VScale(s.sigma ** (FSqrt(n) // VNorm(VMulEl(VSqrtEl(s.sep), g))), VMulEl(s.sep, g)))
     ELSE VSub(s.m, VScale(s.sigma ** FSqrt(n // VDot(g, MVMul(dec, g))), MVMul(s.cov, g)))
\* the two points of two-point adaptation: m + z, m - z with z along the last shift of the mean
TpaStep(c, s, dec, prev, rz) ==
  LET sh == VSub(s.m, prev)
      len == VNorm(IF c.sep THEN VDivEl(sh, VSqrtEl(s.sep)) ELSE MVMul(MInvSqrt(dec), sh)) // s.sigma
  IN VScale(VNorm(rz) // len, sh)
TpaIds(c) == IF c.grad > 0 THEN <<1, 2>> ELSE <<0, 1>>
PosOf(ranked, id) == CHOOSE k \in 1..Len(ranked) : ranked[k].id = id /\ \A j \in 1..(k-1) : ranked[j].id # id
TpaNew(c, ts, ranked) ==
  LET p == TpaIds(c)
      rd == PosOf(ranked, p[2]) - PosOf(ranked, p[1])
  IN ("0.7" ** ts) ++ ("0.3" ** (N(rd) // N(Len(ranked) - 1)))

(* -------------------------- uncertainty handling -------------------------- *)
Distinct(v) == \A a, b \in 1..Len(v) : a = b \/ ~FEq(v[a], v[b])
ReevRate(lambda) == FMax("0.1", "2.0" // N(lambda)) ** N(lambda)
ReevNums(lambda) ==
  LET r == ReevRate(lambda)
      f == FToInt(FFloor(r))
  IN {Max2(1, k) : k \in {f} \cup (IF FLt(FFloor(r), r) THEN {f + 1} ELSE {})}
Rank0(v) == LET q == SortPerm(v) IN [k \in 1..Len(v) |-> (CHOOSE p \in 1..Len(v) : q[p] = k) - 1]
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
AbsI(x) == IF x < 0 THEN -x ELSE x
Delta(r1, r2) == (r2 - r1) - Sgn(r2 - r1)
\* the acceptance threshold: a low percentile of the distances from u to all ranks
Percentile(u, lambda) ==
  LET n == 2 * lambda - 1
  IN NthSmallest([j \in 1..n |-> N(AbsI(j - u))], 1 + (n \div 10))
Uncertainty(f1, f2, nre) ==
  LET lambda == Len(f1)
      r1 == Rank0(f1)
      r2 == Rank0(f2)
      one(k) == ((N(2 * AbsI(Delta(r1[k], r2[k])))
                   -- Percentile(r2[k] - (IF r2[k] > r1[k] THEN 1 ELSE 0), lambda))
                   -- Percentile(r1[k] - (IF r1[k] > r2[k] THEN 1 ELSE 0), lambda))
  IN VSum([k \in 1..nre |-> one(k)]) // N(nre)
\* whether candidate a (index) must precede b
Before(f1, f2, nre, a, b) ==
  LET r1 == Rank0(f1)
      r2 == Rank0(f2)
      sa == r1[a] + r2[a]
      sb == r1[b] + r2[b]
      dl(k) == IF k <= nre THEN Delta(r1[k], r2[k]) ELSE 0
      mean == N(LET RECURSIVE sum(_)
                    sum(k) == IF k = 0 THEN 0 ELSE AbsI(dl(k)) + sum(k - 1)
                IN sum(nre)) // N(nre)
      key(k) == IF k <= nre THEN N(AbsI(dl(k))) ELSE mean
  IN IF sa # sb THEN sa < sb
     ELSE IF dl(a) = dl(b) THEN FLt(f1[a] ++ f2[a], f1[b] ++ f2[b])
     ELSE FLt(key(a), key(b))
=============================================================================
