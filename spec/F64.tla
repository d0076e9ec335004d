------------------------------- MODULE F64 -------------------------------
(***************************************************************************)
(* Real numbers for TLC.  A number is a string holding a decimal literal   *)
(* (as written by the drivers, e.g. "27.26e-9", "NaN", "-Infinity").  TLC  *)
(* has neither reals nor 64-bit integers, so the operators are overridden  *)
(* by java/F64.java (IEEE double arithmetic).  The bodies here are never   *)
(* evaluated; F64Test.tla checks the override against TLC's own integers.  *)
(***************************************************************************)
EXTENDS Integers
FAdd(a, b) == CHOOSE x \in STRING : TRUE
FSub(a, b) == CHOOSE x \in STRING : TRUE
FMul(a, b) == CHOOSE x \in STRING : TRUE
FDiv(a, b) == CHOOSE x \in STRING : TRUE
FNeg(a)    == CHOOSE x \in STRING : TRUE
FAbs(a)    == CHOOSE x \in STRING : TRUE
FMax(a, b) == CHOOSE x \in STRING : TRUE
FMin(a, b) == CHOOSE x \in STRING : TRUE
FLt(a, b)  == CHOOSE x \in BOOLEAN : TRUE
FLe(a, b)  == CHOOSE x \in BOOLEAN : TRUE
FEq(a, b)  == CHOOSE x \in BOOLEAN : TRUE
FFinite(a) == CHOOSE x \in BOOLEAN : TRUE
FLn(a)     == CHOOSE x \in STRING : TRUE
FLog10(a)  == CHOOSE x \in STRING : TRUE
FExp(a)    == CHOOSE x \in STRING : TRUE
FPow10(a)  == CHOOSE x \in STRING : TRUE
FSqrt(a)   == CHOOSE x \in STRING : TRUE
FSinh(a)   == CHOOSE x \in STRING : TRUE
FCosh(a)   == CHOOSE x \in STRING : TRUE
FOfInt(n)  == CHOOSE x \in STRING : TRUE
FF32(a)    == CHOOSE x \in STRING : TRUE

FGt(a, b)  == FLt(b, a)
FGe(a, b)  == FLe(b, a)
FPos(a)    == FLt("0.0", a)

(* |a - b| <= atol + rtol * |b|; false if either is not finite *)
FClose(a, b, rtol, atol) ==
  /\ FFinite(a) /\ FFinite(b)
  /\ FLe(FAbs(FSub(a, b)), FAdd(atol, FMul(rtol, FAbs(b))))
==========================================================================
