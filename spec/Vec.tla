------------------------------- MODULE Vec -------------------------------
(***************************************************************************)
(* Sequences of numbers: sums, merging of sorted grids, trapezoid rule,    *)
(* linear interpolation, not-a-knot cubic splines, small linear systems.   *)
(***************************************************************************)
EXTENDS F64, Sequences, SequencesExt, TLC

VSum(v)    == FoldLeft(LAMBDA a, x : FAdd(a, x), "0.0", v)
VMap2(Op(_, _), a, b) == TLCEval([i \in 1..Len(a) |-> Op(a[i], b[i])])
VDot(a, b) == FoldLeft(LAMBDA s, i : FAdd(s, FMul(a[i], b[i])), "0.0",
                       [i \in 1..Len(a) |-> i])
VScale(c, v) == TLCEval([i \in 1..Len(v) |-> FMul(c, v[i])])
VMin(v) == FoldLeft(LAMBDA a, x : FMin(a, x), v[1], v)
VMax(v) == FoldLeft(LAMBDA a, x : FMax(a, x), v[1], v)
\* where the expected value is defined (no magnitude of a flux that is not
\* positive)
VCloseDef(x, y, atol) ==
  Len(x) = Len(y) /\ \A i \in 1..Len(y) : FFinite(y[i]) => FClose(x[i], y[i], "0.0", atol)
VClose(a, b, rtol, atol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : FClose(a[i], b[i], rtol, atol)
(* closeness relative to the largest element of the reference *)
VCloseScaled(a, b, rtol) ==
  /\ Len(a) = Len(b)
  /\ (Len(b) > 0 =>
        LET m == FMul(rtol, VMax([i \in 1..Len(b) |-> FAbs(b[i])]))
        IN \A i \in 1..Len(a) : FClose(a[i], b[i], rtol, m))

Increasing(v) == \A i \in 1..(Len(v) - 1) : FLt(v[i], v[i + 1])

(* merge of two sorted sequences (duplicates kept: they add empty panels
   to a trapezoid sum) *)
Merge(a, b) ==
  (FoldLeft(LAMBDA st, k :
      IF st.j > Len(b) \/ (st.i <= Len(a) /\ FLe(a[st.i], b[st.j]))
      THEN [i |-> st.i + 1, j |-> st.j, o |-> Append(st.o, a[st.i])]
      ELSE [i |-> st.i, j |-> st.j + 1, o |-> Append(st.o, b[st.j])],
    [i |-> 1, j |-> 1, o |-> <<>>], [k \in 1..(Len(a) + Len(b)) |-> k])).o

(* indices of v in increasing order of value (stable) *)
SortIdx(v) ==
  SortSeq([i \in 1..Len(v) |-> i],
          LAMBDA i, j : FLt(v[i], v[j]) \/ (FEq(v[i], v[j]) /\ i < j))

Trapz(x, y) ==
  FoldLeft(LAMBDA s, i :
             FAdd(s, FMul("0.5", FMul(FSub(x[i + 1], x[i]), FAdd(y[i], y[i + 1])))),
           "0.0", [i \in 1..(Len(x) - 1) |-> i])

(* i with x[i] <= w <= x[i+1], for x[1] <= w <= x[n] *)
RECURSIVE Bracket(_, _, _, _)
Bracket(x, w, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF FLe(x[mid], w) THEN Bracket(x, w, mid, hi) ELSE Bracket(x, w, lo, mid)

Within(x, w) == FLe(x[1], w) /\ FLe(w, x[Len(x)])

(* position of w in grid x for linear interpolation: index and fraction *)
LinPos(x, w) ==
  LET i == Bracket(x, w, 1, Len(x))
  IN [i |-> i, t |-> FDiv(FSub(w, x[i]), FSub(x[i + 1], x[i]))]
Lerp(a, b, t) == FAdd(FMul(a, FSub("1.0", t)), FMul(b, t))

(* solution of the symmetric positive definite system n x = r (elimination
   without pivoting; not finite if singular) *)
SolveSPD(n, r) ==
  LET k == Len(r)
      \* rows of the upper triangle, each with its right-hand side
      up == FoldLeft(LAMBDA u, i :
              Append(u, FoldLeft(LAMBDA row, j :
                 LET p == u[j]
                     f == FDiv(row[j], p[j])
                 IN TLCEval([x \in 1..(k + 1) |-> FSub(row[x], FMul(f, p[x]))]),
                 [x \in 1..(k + 1) |-> IF x <= k THEN n[i][x] ELSE r[i]], [j \in 1..(i - 1) |-> j])),
              <<>>, [i \in 1..k |-> i])
      \* the unknowns, last first
      bk == FoldLeft(LAMBDA s, q :
              LET i == k + 1 - q
                  known == FoldLeft(LAMBDA t, x : FAdd(t, FMul(up[i][x], s[k + 1 - x])), "0.0",
                                    [x \in 1..(q - 1) |-> i + x])
              IN Append(s, FDiv(FSub(up[i][k + 1], known), up[i][i])),
              <<>>, [q \in 1..k |-> q])
  IN TLCEval([i \in 1..k |-> bk[k + 1 - i]])

(***************************************************************************)
(* Not-a-knot cubic spline through (x, y), Len(x) >= 4: second derivatives *)
(* at the knots.                                                           *)
(***************************************************************************)
SplineM(x, y) ==
  LET n == Len(x)
      h == TLCEval([i \in 1..(n - 1) |-> FSub(x[i + 1], x[i])])
      d == TLCEval([i \in 1..(n - 1) |-> FDiv(FSub(y[i + 1], y[i]), h[i])])
      q == FDiv(h[1], h[2])
      r == FDiv(h[n - 1], h[n - 2])
      lo(i) == IF i = n - 1 THEN FSub(h[n - 2], FMul(r, h[n - 1])) ELSE h[i - 1]
      up(i) == IF i = 2 THEN FSub(h[2], FMul(q, h[1])) ELSE h[i]
      di(i) == LET c == FMul("2.0", FAdd(h[i - 1], h[i]))
                   c1 == IF i = 2 THEN FAdd(c, FMul(h[1], FAdd("1.0", q))) ELSE c
               IN IF i = n - 1 THEN FAdd(c1, FMul(h[n - 1], FAdd("1.0", r))) ELSE c1
      rh(i) == FMul("6.0", FSub(d[i], d[i - 1]))
      (* forward elimination over i = 2 .. n-1 *)
      fw == FoldLeft(LAMBDA s, i :
              IF i = 2
              THEN << <<FDiv(up(2), di(2)), FDiv(rh(2), di(2))>> >>
              ELSE LET p == s[i - 2]
                       m == FSub(di(i), FMul(lo(i), p[1]))
                   IN Append(s, <<FDiv(up(i), m),
                                  FDiv(FSub(rh(i), FMul(lo(i), p[2])), m)>>),
              <<>>, [k \in 1..(n - 2) |-> k + 1])
      (* back substitution: result in reverse, M[n-1], M[n-2], ..., M[2] *)
      bk == FoldLeft(LAMBDA s, k :
              IF k = n - 2 THEN <<fw[k][2]>>
              ELSE Append(s, FSub(fw[k][2], FMul(fw[k][1], s[Len(s)]))),
              <<>>, [k \in 1..(n - 2) |-> n - 1 - k])
      M(i) == bk[n - i]                       \* 2 <= i <= n - 1
      m1 == FSub(FMul(FAdd("1.0", q), M(2)), FMul(q, M(3)))
      mn == FSub(FMul(FAdd("1.0", r), M(n - 1)), FMul(r, M(n - 2)))
  IN TLCEval([i \in 1..n |-> IF i = 1 THEN m1 ELSE IF i = n THEN mn ELSE M(i)])

(* value at w of the spline with knots x, values y, second derivatives m;
   zero outside the knots *)
SplineAt(x, y, m, w) ==
  IF ~Within(x, w) THEN "0.0"
  ELSE LET i == Bracket(x, w, 1, Len(x))
           h == FSub(x[i + 1], x[i])
           a == FDiv(FSub(x[i + 1], w), h)
           b == FDiv(FSub(w, x[i]), h)
           c(t) == FSub(FMul(t, FMul(t, t)), t)
       IN FAdd(FAdd(FMul(a, y[i]), FMul(b, y[i + 1])),
               FMul(FDiv(FMul(h, h), "6.0"),
                    FAdd(FMul(c(a), m[i]), FMul(c(b), m[i + 1]))))
(* A knot's influence on a cubic spline falls off by about a factor of four
   per knot: for long grids the knots further than SplineFar from the points
   wanted are left out (a difference far below double precision). *)
SplineFar == 60
Spline(x, y, ws) ==
  LET n  == Len(x)
      lo == VMin([k \in 1..Len(ws) |-> IF FLt(ws[k], x[1]) THEN x[1] ELSE ws[k]])
      hi == VMax([k \in 1..Len(ws) |-> IF FLt(x[n], ws[k]) THEN x[n] ELSE ws[k]])
      a  == IF Within(x, lo) THEN Bracket(x, lo, 1, n) - SplineFar ELSE 1
      b  == IF Within(x, hi) THEN Bracket(x, hi, 1, n) + 1 + SplineFar ELSE n
      i  == IF a < 1 THEN 1 ELSE a
      j  == IF b > n THEN n ELSE b
      cx == TLCEval(SubSeq(x, i, j))
      cy == TLCEval(SubSeq(y, i, j))
      m  == TLCEval(SplineM(cx, cy))
  IN IF Len(ws) = 0 \/ n < 4 * SplineFar
     THEN LET mm == SplineM(x, y) IN TLCEval([k \in 1..Len(ws) |-> SplineAt(x, y, mm, ws[k])])
     ELSE TLCEval([k \in 1..Len(ws) |-> IF Within(x, ws[k]) THEN SplineAt(cx, cy, m, ws[k]) ELSE "0.0"])
==========================================================================
