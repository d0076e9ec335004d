-------------------------------- MODULE KKT --------------------------------
(***************************************************************************)
(* The optimality conditions fits are judged by (Answers!Optimal) hold for *)
(* exactly the minima: for every problem with two bands and two templates  *)
(* over the numbers below, a point is a minimum among a grid of points and *)
(* all active-set solutions iff it satisfies Optimal; a minimum is never   *)
(* beaten in NoneBetter, and what is not beaten is, but for rounding, as   *)
(* good as any of the points, also if the weights of the bands differ by   *)
(* eight decades.                                                          *)
(***************************************************************************)
EXTENDS Answers

Rs == {<<"1.0", "0.0">>, <<"1.0", "2.0">>, <<"2.0", "1.0">>, <<"0.0", "3.0">>, <<"1.0", "1.0">>}
Ms == {"-1.0", "0.0", "1.0", "2.0"}
Ws == {"0.0", "1.0", "16.0", "1e-8"}

VARIABLES problem, verdict

Chi2(p, c) == LET d == [b \in 1..2 |-> FSub(VDot(p.a[b], c), p.m[b])]
           IN FAdd(FMul(p.w[1], FMul(d[1], d[1])), FMul(p.w[2], FMul(d[2], d[2])))
\* normal equations
N(p, i, j) == FAdd(FMul(p.w[1], FMul(p.a[1][i], p.a[1][j])), FMul(p.w[2], FMul(p.a[2][i], p.a[2][j])))
R(p, i) == FAdd(FMul(p.w[1], FMul(p.a[1][i], p.m[1])), FMul(p.w[2], FMul(p.a[2][i], p.m[2])))
Det(p) == FSub(FMul(N(p, 1, 1), N(p, 2, 2)), FMul(N(p, 1, 2), N(p, 2, 1)))
One(p, i) == IF FPos(N(p, i, i)) THEN FMax("0.0", FDiv(R(p, i), N(p, i, i))) ELSE "0.0"
Both(p) == LET x == FDiv(FSub(FMul(R(p, 1), N(p, 2, 2)), FMul(R(p, 2), N(p, 1, 2))), Det(p))
            y == FDiv(FSub(FMul(R(p, 2), N(p, 1, 1)), FMul(R(p, 1), N(p, 2, 1))), Det(p))
        IN <<x, y>>
Gs == {"0.0", "0.5", "1.0", "2.0", "0.001"}
Points(p) ==
  {<<x, y>> : x \in Gs, y \in Gs}
  \cup {<<One(p, 1), "0.0">>, <<"0.0", One(p, 2)>>}
  \cup (IF FLt(FMul("1e-10", FMul(N(p, 1, 1), N(p, 2, 2))), FAbs(Det(p))) /\ FLe("0.0", Both(p)[1]) /\ FLe("0.0", Both(p)[2]) THEN {Both(p)} ELSE {})

Best(p) == LET cs == TLCEval({Chi2(p, c) : c \in Points(p)}) IN CHOOSE x \in cs : \A y \in cs : FLe(x, y)
\* a minimum is never rejected, and what is accepted is one
NoFalseAlarm(p, b) == \A c \in Points(p) : FLe(Chi2(p, c), FAdd(b, "1e-22")) => Optimal(p.a, p.m, p.w, c)
NoMiss(p, b)       == \A c \in Points(p) : Optimal(p.a, p.m, p.w, c) => FLe(Chi2(p, c), FAdd(b, "1e-6"))

\* the competitor test
Unbeaten(p, b) ==
  \A c \in Points(p) :
    /\ FLe(Chi2(p, c), FAdd(b, "1e-22")) => NoneBetter(p.a, p.m, p.w, c)
    /\ NoneBetter(p.a, p.m, p.w, c) =>
         \A d \in Points(p) : FLe(Resid(p.a, p.m, p.w, c),
            FAdd(Resid(p.a, p.m, p.w, d), FAdd("1e-11", FMul("2.0", FAdd(Slack(p.a, p.m, p.w, c), Slack(p.a, p.m, p.w, d))))))

Init == /\ problem \in [a : [1..2 -> Rs], m : [1..2 -> Ms], w : [1..2 -> Ws]]
        /\ verdict = "todo"
Verdict(p) == LET b == Best(p) IN
  IF ~NoFalseAlarm(p, b) THEN "false alarm" ELSE IF ~NoMiss(p, b) THEN "miss" ELSE IF ~Unbeaten(p, b) THEN "beaten" ELSE "ok"
Next == /\ verdict = "todo"
        /\ \E p \in {problem} : verdict' = Verdict(p)
        /\ UNCHANGED problem
Spec == Init /\ [][Next]_<<problem, verdict>>
Equivalent == verdict \in {"todo", "ok"}
=============================================================================
