------------------------------ MODULE Answers ------------------------------
(***************************************************************************)
(* What each public query has to answer, in numbers.  A query is judged by *)
(* a sequence of clauses [c |-> name, ok |-> BOOLEAN]; the answer is right *)
(* iff all hold.                                                           *)
(*                                                                         *)
(* An array argument or result is [s |-> shape, v |-> flat values]; an     *)
(* argument not given has shape <<-1>>.                                    *)
(***************************************************************************)
EXTENDS Photometry, FiniteSets

TolA == "2e-5"       \* relative tolerance of reconstructed fluxes
TolM == "1e-4"       \* absolute tolerance of magnitudes
TolG == "1e-4"       \* scaled tolerance of the optimality conditions
TolD == "1e-4"       \* relative tolerance of derived quantities
Sentinel == "-9999.0"

Cl(n, b) == [c |-> n, ok |-> b]
RejectTypes == {"ValueError", "TypeError"}
Rejected(o) == o.t = "exc" /\ o.e \in RejectTypes

Given(a) == a.s # <<-1>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
\* row i of an array with leading axis, or the whole of a scalar call's value
RowOf(a, i, arr) ==
  IF ~arr THEN a.v
  ELSE LET k == Prod(Tail(a.s)) IN SubSeq(a.v, (i - 1) * k + 1, i * k)
ScalarOf(a, i) == IF a.s = <<>> THEN a.v[1] ELSE a.v[i]
\* draw d (1-based) of the last axis of a row with mc draws
Draw(row, d, mc) == [b \in 1..(Len(row) \div mc) |-> row[(b - 1) * mc + d]]

(***************************************************************************)
(* Consistency of the arguments                                            *)
(***************************************************************************)
IsArr(z) == Len(z.s) = 1
Num(z)   == IF IsArr(z) THEN z.s[1] ELSE 1
ZOk(z)   == Given(z) /\ Len(z.s) \in {0, 1}
\* a has one value per object and per element of a list of length k
PerObject(a, z, k) == a.s = (IF IsArr(z) THEN <<z.s[1], k>> ELSE <<k>>)
PerObjectMC(a, z, k, mc) == a.s = (IF IsArr(z) THEN <<z.s[1], k, mc>> ELSE <<k, mc>>)
ResShape(z, k) == IF IsArr(z) THEN <<z.s[1], k>> ELSE <<k>>
ResShapeMC(z, k, mc) == IF IsArr(z) THEN <<z.s[1], k, mc>> ELSE <<k, mc>>
NB(kc) == Len(kc.resp)
NO(kc) == Len(kc.out)
NT(kc) == Len(kc.A[1][1])

(***************************************************************************)
(* Magnitude systems                                                       *)
(***************************************************************************)
ABFixes == <<"-0.036", "0.012", "0.010", "0.028", "0.040">>
ABFac(i) == FPow10(FMul("-0.4", ABFixes[i]))
\* first SDSS band of a kind of object minus one; 2MASS and GALEX are AB
SdssOffset(cls) == IF cls = "gst" THEN 2 ELSE 0
IsSdss(cls, b) == cls \in {"sdss", "gst"} /\ b - SdssOffset(cls) \in 1..5
ToABm(kc, m) ==
  IF ~kc.opt.ab THEN m
  ELSE TLCEval([b \in 1..Len(m) |->
     IF IsSdss(kc.opt.cls, b) THEN FMul(m[b], ABFac(b - SdssOffset(kc.opt.cls))) ELSE m[b]])
ToABiv(kc, iv) ==
  IF ~kc.opt.ab THEN iv
  ELSE TLCEval([b \in 1..Len(iv) |->
     IF IsSdss(kc.opt.cls, b)
     THEN LET f == ABFac(b - SdssOffset(kc.opt.cls)) IN FDiv(iv[b], FMul(f, f)) ELSE iv[b]])

Mag(x) == FMul("-2.5", FLog10(x))

(***************************************************************************)
(* The design matrix between grid points, and the model fluxes             *)
(***************************************************************************)
InRange(kc, z) == LET q == FF32(z) IN Within(kc.zg, q)
AAt(kc, A, z) ==
  LET p == LinPos(kc.zg, FF32(z))
  IN TLCEval([b \in 1..Len(A[1]) |->
        TLCEval([j \in 1..Len(A[1][1]) |-> Lerp(A[p.i][b][j], A[p.i + 1][b][j], p.t)])])
Model(a, c) == TLCEval([b \in 1..Len(a) |-> VDot(a[b], c)])

\* (1+z)(1+bs)-1
Shifted(z, bs) == FSub(FMul(ZP1(z), ZP1(bs)), "1.0")
ReconRow(kc, A, z, bs, c) ==
  LET m == Model(AAt(kc, A, Shifted(z, bs)), c)
  IN TLCEval([b \in 1..Len(m) |-> FDiv(m[b], ZP1(bs))])

SumPos(c) == FPos(VSum(c))

(***************************************************************************)
(* Nonnegative least squares: optimality (KKT) conditions of minimising    *)
(* sum_b iv_b (m_b - sum_j a_bj c_j)^2 over c >= 0.  The problem is convex *)
(* so they are necessary and sufficient.                                   *)
(***************************************************************************)
Optimal(a, m, iv, c) ==
  LET mod == Model(a, c)
      g(j) == FoldLeft(LAMBDA s, b : FAdd(s, FMul(iv[b], FMul(a[b][j], FSub(mod[b], m[b])))),
                       "0.0", [b \in 1..Len(a) |-> b])
      sc(j) == FoldLeft(LAMBDA s, b : FAdd(s, FMul(iv[b], FMul(FAbs(a[b][j]),
                                          FAdd(FAbs(mod[b]), FAbs(m[b]))))),
                        "0.0", [b \in 1..Len(a) |-> b])
  IN \A j \in 1..Len(c) :
       /\ FFinite(c[j]) /\ FLe("0.0", c[j])
       /\ FLe(FNeg(FMul(TolG, sc(j))), g(j))
       /\ FPos(c[j]) => FLe(g(j), FMul(TolG, sc(j)))

(* The conditions above are relative to the bands of largest weight.  What   *)
(* the others have to say shows in the residual: no least squares solution  *)
(* over any of the sets of templates has a smaller one, but for rounding of *)
(* fluxes and matrix (TolA).                                                 *)
Resid(a, m, iv, c) ==
  LET mod == Model(a, c)
  IN FSqrt(VSum([b \in 1..Len(a) |-> LET d == FSub(mod[b], m[b]) IN FMul(iv[b], FMul(d, d))]))
Slack(a, m, iv, c) ==
  FSqrt(VSum([b \in 1..Len(a) |->
     LET d == FMul(TolA, FAdd(VDot([j \in 1..Len(c) |-> FAbs(a[b][j])], c), FAbs(m[b])))
     IN FMul(iv[b], FMul(d, d))]))
LeastSq(a, m, iv, T) ==
  LET t == SetToSortSeq(T, LAMBDA i, j : i < j)
      sumb(F(_)) == VSum([b \in 1..Len(a) |-> F(b)])
      n == TLCEval([i \in 1..Len(t) |-> TLCEval([j \in 1..Len(t) |->
              sumb(LAMBDA b : FMul(iv[b], FMul(a[b][t[i]], a[b][t[j]])))])])
      r == TLCEval([i \in 1..Len(t) |-> sumb(LAMBDA b : FMul(iv[b], FMul(a[b][t[i]], m[b])))])
      x == IF t = <<>> THEN <<>> ELSE SolveSPD(n, r)
  IN TLCEval([j \in 1..Len(a[1]) |-> IF j \in T THEN x[CHOOSE i \in 1..Len(t) : t[i] = j] ELSE "0.0"])
NoneBetter(a, m, iv, c) ==
  LET best == TLCEval(FAdd(Resid(a, m, iv, c), "0.0"))
      mine == TLCEval(Slack(a, m, iv, c))
  IN \A T \in SUBSET (1..Len(c)) :
       Cardinality(T) <= Len(a) =>
         LET x == LeastSq(a, m, iv, T)
         IN (\A j \in 1..Len(x) : FFinite(x[j]) /\ FLe("0.0", x[j])) =>
              FLe(best, FAdd(Resid(a, m, iv, x), FAdd(mine, Slack(a, m, iv, x))))

AllZero(c) == \A j \in 1..Len(c) : FEq(c[j], "0.0")

FitRow(kc, z, m, iv, c) ==
  IF ~InRange(kc, z) THEN AllZero(c)
  ELSE LET a == AAt(kc, kc.A, z)
       IN Optimal(a, m, iv, c) /\ (Len(c) <= 4 => NoneBetter(a, m, iv, c))

(***************************************************************************)
(* K-corrections and magnitudes of one object                              *)
(***************************************************************************)
KcorRow(kc, z, bs, c) ==
  LET i == ReconRow(kc, kc.A, z, "0.0", c)
      o == ReconRow(kc, kc.Aout, "0.0", bs, c)
  IN TLCEval([b \in 1..NO(kc) |->
        IF SumPos(c) THEN Mag(FDiv(i[kc.imap[b]], o[b])) ELSE "0.0"])

KcorDefined(kc, z, bs) == InRange(kc, z) /\ InRange(kc, Shifted("0.0", bs))

\* distance modulus of a luminosity distance in Mpc
DistMod(d) == FMul("5.0", FLog10(FDiv(d, "1e-5")))

\* m, iv are AB
AbsmagRow(kc, k, dm, m, iv) ==
  TLCEval([b \in 1..NO(kc) |->
     LET i == kc.imap[b]
     IN IF FPos(m[i]) /\ FPos(iv[i]) THEN FSub(FSub(Mag(m[i]), dm), k[b]) ELSE Sentinel])
ReconAbsRow(kc, z, k, dm, c) ==
  LET f == ReconRow(kc, kc.A, z, "0.0", c)
  IN TLCEval([b \in 1..NO(kc) |->
     IF FPos(f[kc.imap[b]]) THEN FSub(FSub(Mag(f[kc.imap[b]]), dm), k[b]) ELSE Sentinel])
LimitRow(kc, k, dm, iv, c) ==
  TLCEval([b \in 1..NO(kc) |->
     LET i == kc.imap[b]
     IN IF FPos(iv[i]) /\ SumPos(c)
        THEN FSub(FSub(Mag(FDiv("1.0", FSqrt(iv[i]))), dm), k[b]) ELSE Sentinel])

(***************************************************************************)
(* Derived quantities of one object.  props: intsfh, mremain, mets, m50,   *)
(* m300, m1000 (per template); sun[b]: solar magnitude or "none".          *)
(***************************************************************************)
DFac(dm) == FPow10(FMul("0.4", dm))
DerivedRow(kc, props, sun, bs, dm, c) ==
  LET F == DFac(dm)
      W(p) == FMul(VDot(c, p), F)
      mr == W(props.mremain)
      isf == W(props.intsfh)
      pos == FPos(mr)
      ratio(x, y) == IF pos THEN FDiv(x, y) ELSE "0.0"
      rec == ReconRow(kc, kc.Aout, "0.0", bs, c)
      msun(b) == IF sun[b] = "none" THEN "0.0" ELSE sun[b]
      lum(b) == FMul(rec[b], FPow10(FMul("0.4", FAdd(msun(b), dm))))
  IN [mremain |-> <<mr>>, intsfh |-> <<isf>>,
      mtol |-> TLCEval([b \in 1..NO(kc) |->
                  IF FPos(rec[b]) THEN FDiv(mr, lum(b)) ELSE "0.0"]),
      b50 |-> <<ratio(W(props.m50), isf)>>,
      b300 |-> <<ratio(W(props.m300), isf)>>,
      b1000 |-> <<ratio(W(props.m1000), isf)>>,
      metallicity |-> <<ratio(W(VMap2(FMul, props.mremain, props.mets)), mr)>>]
DKeys == <<"mremain", "intsfh", "mtol", "b50", "b300", "b1000", "metallicity">>
============================================================================
