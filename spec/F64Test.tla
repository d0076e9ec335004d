------------------------------ MODULE F64Test ------------------------------
(***************************************************************************)
(* The overridden arithmetic agrees with TLC's integers, and the numerical *)
(* modules with facts of mathematics: a not-a-knot spline reproduces       *)
(* cubics, the trapezoid rule lines, the AB source projects to 1,          *)
(* projection is linear, shifting conserves the bolometric integral.       *)
(***************************************************************************)
EXTENDS Funcs

I == -7..7
Q(n) == FOfInt(n)
Small(x) == FLt(FAbs(x), "1e-9")
ArithOK ==
  \A a, b \in I :
    /\ FEq(FAdd(Q(a), Q(b)), Q(a + b)) /\ FEq(FSub(Q(a), Q(b)), Q(a - b))
    /\ FEq(FMul(Q(a), Q(b)), Q(a * b)) /\ FEq(FNeg(Q(a)), Q(-a))
    /\ FLt(Q(a), Q(b)) = (a < b) /\ FLe(Q(a), Q(b)) = (a <= b) /\ FEq(Q(a), Q(b)) = (a = b)
    /\ (b # 0 => FEq(FMul(FDiv(Q(a * b), Q(b)), "1.0"), Q(a)))
    /\ FEq(FAbs(Q(a)), Q(IF a < 0 THEN -a ELSE a))
    /\ FEq(FMax(Q(a), Q(b)), Q(IF a < b THEN b ELSE a)) /\ FEq(FMin(Q(a), Q(b)), Q(IF a < b THEN a ELSE b))
    /\ FEq(FSqrt(Q(a * a)), Q(IF a < 0 THEN -a ELSE a))
    /\ FPos(Q(a)) = (a > 0)
FuncOK ==
  \A a \in I :
    /\ Small(FSub(FLn(FExp(Q(a))), Q(a))) /\ Small(FSub(FLog10(FPow10(Q(a))), Q(a)))
    /\ Small(FSub(FDiv(FExp(Q(a)), FSub(FCosh(Q(a)), FNeg(FSinh(Q(a))))), "1.0"))
    /\ FClose(FExp(FLn("2.5")), "2.5", "1e-12", "0.0")
NotNumbers ==
  /\ ~FFinite("NaN") /\ ~FFinite("Infinity") /\ ~FFinite(FDiv("1.0", "0.0")) /\ FFinite("1e308")
  /\ ~FClose("NaN", "NaN", "1.0", "1.0") /\ ~FClose("1.0", "NaN", "1.0", "1.0") /\ ~FLe("NaN", "1.0")

X == <<"0.0", "1.0", "2.5", "3.0", "4.5", "6.0">>
Cubic(a, b, c, d, x) == FAdd(Q(a), FMul(x, FAdd(Q(b), FMul(x, FAdd(Q(c), FMul(x, Q(d)))))))
W == <<"0.0", "0.3", "1.7", "2.75", "3.3", "5.1", "6.0">>
SplineOK ==
  \A a, b, c, d \in {-1, 0, 2} :
    LET y == [i \in 1..6 |-> Cubic(a, b, c, d, X[i])]  s == Spline(X, y, W)
    IN \A i \in 1..Len(W) : Small(FSub(s[i], Cubic(a, b, c, d, W[i])))
SplineOutside == Spline(X, X, <<"-0.1", "6.1">>) = <<"0.0", "0.0">>
\* leaving out far knots of long grids makes no difference
LX == [i \in 1..400 |-> FAdd(Q(i), FDiv(Q((i * i) % 7), "10.0"))]
LY == [i \in 1..400 |-> Q((i * i * 31 + i * 17) % 101)]
SplineLong ==
  LET m == SplineM(LX, LY)
      P(ws) == \A k \in 1..Len(ws) : Small(FSub(Spline(LX, LY, ws)[k], SplineAt(LX, LY, m, ws[k])))
  IN /\ P(<<"0.5", "1.2", "3.0", "100.3", "150.0">>) /\ P(<<"200.0", "200.0", "210.7">>) /\ P(<<"395.0", "401.0">>)
     /\ P(<<"0.5", "401.0">>) /\ P(<<"399.5", "0.25">>) /\ P(<<"-3.0">>) /\ P(<<"500.0">>)
\* linear systems: the solution multiplied out is the right-hand side
SolveOK ==
  \A a, b, c \in {0, 1, 3} : \A r \in {<<"1.0", "0.0", "-2.0">>, <<"3.0", "3.0", "5.0">>} :
    LET n == << <<Q(a + 4), Q(b), Q(1)>>, <<Q(b), Q(c + 5), Q(-1)>>, <<Q(1), Q(-1), Q(6)>> >>
        s == SolveSPD(n, r)
    IN \A i \in 1..3 : Small(FSub(VDot(n[i], s), r[i]))
Singular == ~FFinite(SolveSPD(<< <<"1.0", "2.0">>, <<"2.0", "4.0">> >>, <<"1.0", "1.0">>)[1])
TrapzOK == /\ FEq(Trapz(<<"0.0", "1.0", "3.0">>, <<"1.0", "1.0", "1.0">>), "3.0")
           /\ FEq(Trapz(<<"0.0", "1.0", "3.0">>, <<"0.0", "2.0", "6.0">>), "9.0")
MergeOK == /\ Merge(<<"1.0", "3.0">>, <<"2.0", "3.0", "4.0">>) = <<"1.0", "2.0", "3.0", "3.0", "4.0">>
           /\ SortIdx(<<"3.0", "1.0", "2.0">>) = <<2, 3, 1>>

\* on the grid of the bandpass there is no interpolation error
B == [w |-> <<"4000.0", "4500.0", "5000.0", "5600.0", "6000.0">>, p |-> <<"0.0", "0.5", "1.0", "0.4", "0.0">>]
G == <<"3000.0", "3500.0", "4000.0", "4500.0", "5000.0", "5600.0", "6000.0", "7000.0">>
AB == [i \in 1..Len(G) |-> ABFlux(G[i])]
F2 == [i \in 1..Len(G) |-> FMul("1e-9", FAdd("1.0", FMul(Q(i), Q(i))))]
Sum3 == [i \in 1..Len(G) |-> FAdd(AB[i], FMul("3.0", F2[i]))]
\* a spectrum is the same either way round
DownOK ==
  /\ Project(Upward(G), <<Upward(AB), Upward(F2)>>, B) = Project(G, <<AB, F2>>, B)
  /\ SplineOf(Upward(G), Upward(F2), <<"3100.0", "4444.0", "9000.0">>) = Spline(G, F2, <<"3100.0", "4444.0", "9000.0">>)
ProjectOK ==
  LET p == Project(G, <<AB, F2, Sum3>>, B)
  IN /\ FClose(p[1], "1.0", "1e-12", "0.0")
     /\ FClose(p[3], FAdd(p[1], FMul("3.0", p[2])), "1e-12", "0.0")
     /\ Project(<<"7000.0", "8000.0", "9000.0", "9500.0">>, <<<<"1.0", "1.0", "1.0", "1.0">>>>, B) = <<"0.0">>
Bolometric ==
  \A z \in {"0.5", "-0.25", "3.0"} :
    FClose(Trapz(ShiftWave(G, z), ShiftFlux(<<F2>>, z)[1]), Trapz(G, F2), "1e-12", "0.0")
LambdaOK == /\ FLt("4000.0", LambdaEff(B)) /\ FLt(LambdaEff(B), "6000.0")
            /\ FClose(LambdaEff([w |-> B.w, p |-> VScale("7.0", B.p)]), LambdaEff(B), "1e-12", "0.0")
\* sdss asinh magnitudes: zero flux at -2.5 log10 b, derivative
AsinhOK == \A b \in 1..5 :
  LET zp == FMul("-2.5", FLog10(AsinhB[b]))
      h == "1e-5"
      dn == FDiv(FSub(AsinhMaggies(b, FAdd("20.0", h), "0.0"), AsinhMaggies(b, FSub("20.0", h), "0.0")), FMul("2.0", h))
  IN /\ FLt(FAbs(AsinhMaggies(b, zp, "0.0")), "1e-22")
     /\ FClose(FNeg(dn), AsinhErr(b, "20.0", "1.0", "0.0"), "1e-6", "0.0")
     /\ FClose(AsinhMaggies(b, "14.0", "0.0"), FPow10("-5.6"), "1e-3", "0.0")
DistOK == FClose(DistMod("1e-5"), "0.0", "1e-9", "1e-9") /\ FClose(DistMod("1.0"), "25.0", "1e-9", "0.0")

ASSUME ArithOK
ASSUME FuncOK
ASSUME NotNumbers
ASSUME SplineOK
ASSUME SplineOutside
ASSUME SplineLong
ASSUME SolveOK
ASSUME Singular
ASSUME TrapzOK
ASSUME MergeOK
ASSUME ProjectOK
ASSUME DownOK
ASSUME Bolometric
ASSUME LambdaOK
ASSUME AsinhOK
ASSUME DistOK

SunMagT(b) == "none"
VARIABLE x
TInit == x = 0
TNext == x' = x
=============================================================================
