------------------------------- MODULE Funcs -------------------------------
(***************************************************************************)
(* The stateless public functions, and bandpass descriptors.               *)
(***************************************************************************)
EXTENDS Judge

Nth(o, n) == o.r[n]
AllClose(x, y, rtol) == \A i \in 1..Len(y) : FClose(x[i], y[i], rtol, "1e-37")
SameShapeAs(a, b) == a.s = b.s

\* element b (1..last axis) of flat index i of an array
LastIdx(a, i) == ((i - 1) % a.s[Len(a.s)]) + 1

---------------------------------------------------------------------------
(* C19 *)
JSdssAB(q, o) ==
  LET m == q.m  iv == q.iv
      fix == IF Given(q.fix) THEN q.fix.v ELSE ABFixes
      fac(i) == FPow10(FMul("-0.4", fix[LastIdx(m, i)]))
      good == /\ Len(m.s) \in {1, 2} /\ m.s[Len(m.s)] = 5
              /\ Given(iv) => iv.s = m.s
              /\ Given(q.fix) => q.fix.s = <<5>>
      n == IF Given(iv) THEN 2 ELSE 1
  IN IF ~good THEN MustReject(o)
     ELSE Then(o, n,
       << ShapeCl(o.r[1], m.s),
          Cl("maggies times 10^(-0.4 fix)",
             o.r[1].s = m.s => AllClose(o.r[1].v, [i \in 1..Len(m.v) |-> FMul(m.v[i], fac(i))], "2e-6")) >>
       \o IF ~Given(iv) THEN <<>> ELSE
       << ShapeCl(o.r[2], m.s),
          Cl("ivar over factor squared",
             o.r[2].s = m.s => AllClose(o.r[2].v,
                [i \in 1..Len(m.v) |-> FDiv(iv.v[i], FMul(fac(i), fac(i)))], "2e-6")) >>)

\* to_ab() of a fitter of class q.cls with nb bands
JToAB(q, o) ==
  LET m == q.m  iv == q.iv
      b(i) == LastIdx(m, i) - SdssOffset(q.cls)
      on(i) == q.cls \in {"sdss", "gst"} /\ b(i) \in 1..5
      n == IF Given(iv) THEN 2 ELSE 1
  IN Then(o, n,
       << ShapeCl(o.r[1], m.s),
          Cl("ugriz maggies to AB, others untouched",
             o.r[1].s = m.s => AllClose(o.r[1].v,
                [i \in 1..Len(m.v) |-> IF on(i) THEN FMul(m.v[i], ABFac(b(i))) ELSE m.v[i]], "2e-6")) >>
       \o IF ~Given(iv) THEN <<>> ELSE
       << ShapeCl(o.r[2], m.s),
          Cl("ugriz ivar to AB, others untouched",
             o.r[2].s = m.s => AllClose(o.r[2].v,
                [i \in 1..Len(m.v) |->
                   IF on(i) THEN FDiv(iv.v[i], FMul(ABFac(b(i)), ABFac(b(i)))) ELSE iv.v[i]], "2e-6")) >>)

---------------------------------------------------------------------------
(* C20 *)
AsinhB == <<"1.4e-10", "0.9e-10", "1.2e-10", "1.8e-10", "7.4e-10">>
Ln10x04 == FMul("0.4", FLn("10.0"))
AsinhArg(b, m) == FSub(FNeg(FLn(AsinhB[b])), FMul(Ln10x04, m))
AsinhMaggies(b, m, x) ==
  FMul(FMul(FMul("2.0", AsinhB[b]), FSinh(AsinhArg(b, m))), FPow10(FMul("0.4", x)))
\* scale of cancellation in the sinh (for tolerance near zero flux)
AsinhScale(b, m, x) ==
  FMul(FMul(FMul("2.0", AsinhB[b]), FCosh(AsinhArg(b, m))), FPow10(FMul("0.4", x)))
AsinhErr(b, m, e, x) == FMul(FMul(AsinhScale(b, m, x), Ln10x04), e)

\* photometry (maggies and inverse variances) of asinh magnitudes and errors
AsinhPhotometry(x) ==
  LET m == x.mag  e == x.err
      xt(i) == IF Given(x.ext) THEN x.ext.v[i] ELSE "0.0"
      ok == m.s = e.s /\ (Given(x.ext) => x.ext.s = m.s)
      iv(i) == LET s == AsinhErr(LastIdx(m, i), m.v[i], e.v[i], xt(i)) IN FDiv("1.0", FMul(s, s))
  IN IF ~ok THEN [m |-> [s |-> <<-1>>, v |-> <<>>], iv |-> [s |-> <<-1>>, v |-> <<>>]]
     ELSE [m  |-> [s |-> m.s, v |-> [i \in 1..Len(m.v) |-> AsinhMaggies(LastIdx(m, i), m.v[i], xt(i))]],
           iv |-> [s |-> m.s, v |-> [i \in 1..Len(m.v) |-> iv(i)]]]

JAsinh(q, o) ==
  LET m == q.m
      good == /\ Given(m) /\ Len(m.s) >= 1 /\ m.s[Len(m.s)] = 5
              /\ Given(q.e) => q.e.s = m.s
              /\ Given(q.x) => q.x.s = m.s
      x(i) == IF Given(q.x) THEN q.x.v[i] ELSE "0.0"
      n == IF Given(q.e) THEN 2 ELSE 1
  IN IF ~good THEN MustReject(o)
     ELSE Then(o, n,
       << ShapeCl(o.r[1], m.s),
          Cl("maggies of asinh magnitudes, extinction corrected", o.r[1].s = m.s =>
             \A i \in 1..Len(m.v) :
                FClose(o.r[1].v[i], AsinhMaggies(LastIdx(m, i), m.v[i], x(i)), "2e-5",
                       FMul("2e-5", AsinhScale(LastIdx(m, i), m.v[i], x(i))))) >>
       \o IF ~Given(q.e) THEN <<>> ELSE
       << ShapeCl(o.r[2], m.s),
          Cl("ivar of asinh magnitudes; extinction keeps signal-to-noise", o.r[2].s = m.s =>
             \A i \in 1..Len(m.v) :
                LET s == AsinhErr(LastIdx(m, i), m.v[i], q.e.v[i], x(i))
                IN FClose(o.r[2].v[i], FDiv("1.0", FMul(s, s)), "1e-4", "0.0")) >>)

---------------------------------------------------------------------------
(* C21 *)
JFloor(q, o) ==
  LET m == q.m  iv == q.iv  fl == q.floor
      good == /\ Len(m.s) \in {1, 2} /\ iv.s = m.s
              /\ Len(fl.s) = 1 /\ m.s[Len(m.s)] = fl.s[1]
      floorivar(i) ==
        LET x == FMul(FAbs(m.v[i]), fl.v[LastIdx(m, i)]) IN FDiv("1.0", FMul(x, x))
      want(i) == IF FPos(iv.v[i]) THEN FMin(iv.v[i], floorivar(i)) ELSE iv.v[i]
  IN IF ~good THEN MustReject(o)
     ELSE Then(o, 1,
       << ShapeCl(o.r[1], m.s),
          Cl("never a larger weight", o.r[1].s = m.s =>
             \A i \in 1..Len(m.v) : FLe(o.r[1].v[i], FMul(iv.v[i], "1.000001"))),
          Cl("weight capped by the floor of the band", o.r[1].s = m.s =>
             \A i \in 1..Len(m.v) : FClose(o.r[1].v[i], want(i), "2e-6", "0.0")) >>)

---------------------------------------------------------------------------
(* C22; bands: the named bands in order *)
JM2F(bands, q, o) ==
  LET m == q.m  iv == q.iv
      n == IF Given(iv) THEN 3 ELSE 2
      we == TLCEval([b \in 1..Len(bands) |-> LambdaEff(bands[b])])
      f(i) == ABFlux(we[LastIdx(m, i)])
  IN Then(o, n,
       << Cl("effective wavelengths in order",
             o.r[1].s = <<Len(bands)>> /\ AllClose(o.r[1].v, we, "2e-6")),
          ShapeCl(o.r[2], m.s),
          Cl("flux density is maggies times AB flux", o.r[2].s = m.s =>
             AllClose(o.r[2].v, [i \in 1..Len(m.v) |-> FMul(m.v[i], f(i))], "1e-5")) >>
       \o IF ~Given(iv) THEN <<>> ELSE
       << ShapeCl(o.r[3], m.s),
          Cl("ivar over AB flux squared", o.r[3].s = m.s =>
             AllClose(o.r[3].v, [i \in 1..Len(m.v) |-> FDiv(iv.v[i], FMul(f(i), f(i)))], "1e-5")) >>)

JSedAB(q, o) ==
  Then(o, 1, << ShapeCl(o.r[1], q.w.s),
                Cl("AB flux density", o.r[1].s = q.w.s =>
                   AllClose(o.r[1].v, [i \in 1..Len(q.w.v) |-> ABFlux(q.w.v[i])], "2e-6")) >>)

---------------------------------------------------------------------------
(* C25.  q.words: the whitespace-separated words of the file.  The numbers *)
(* of wavelengths is fixed by the format.                                  *)
NBasel == 1221
JBasel(q, o) ==
  LET W == q.words
      nu == (Len(W) - NBasel) \div (NBasel + 6)
      start(u) == NBasel + (u - 1) * (NBasel + 6)
      par == <<"modelno", "teff", "logg", "mh", "vturb", "xh">>
  IN Then(o, 8,
       << ShapeCl(o.r[1], <<NBasel>>),
          Cl("wavelengths", AllClose(o.r[1].v, SubSeq(W, 1, NBasel), "1e-6")),
          ShapeCl(o.r[2], <<nu, NBasel>>),
          Cl("fluxes of each model", o.r[2].s = <<nu, NBasel>> =>
             \A u \in 1..nu : AllClose(SubSeq(o.r[2].v, (u - 1) * NBasel + 1, u * NBasel),
                                       SubSeq(W, start(u) + 7, start(u) + 6 + NBasel), "1e-6")) >>
       \o [p \in 1..6 |->
            Cl(par[p] \o " of each model",
               /\ o.r[p + 2].s = <<nu>>
               /\ \A u \in 1..nu : FClose(o.r[p + 2].v[u], W[start(u) + p], "1e-6", "1e-30"))])

---------------------------------------------------------------------------
(* C17.  b: the curve as given, in any order.                              *)
Sorted(b) ==
  LET ix == TLCEval(SortIdx(b.w))
  IN [w |-> TLCEval([i \in 1..Len(b.w) |-> b.w[ix[i]]]),
      p |-> TLCEval([i \in 1..Len(b.w) |-> b.p[ix[i]]])]

HalfMax(b) == FMul("0.5", VMax(b.p))
\* first and last grid points above half maximum
FirstAbove(b) ==
  LET h == TLCEval(HalfMax(b))
  IN FoldLeft(LAMBDA a, i : IF a = 0 /\ FLt(h, b.p[i]) THEN i ELSE a, 0, [i \in 1..Len(b.w) |-> i])
LastAbove(b) ==
  LET h == TLCEval(HalfMax(b))
  IN FoldLeft(LAMBDA a, i : IF FLt(h, b.p[i]) THEN i ELSE a, 0, [i \in 1..Len(b.w) |-> i])

\* x is a half-maximum crossing of the curve in the panel below/above grid
\* point i (or the end of the grid)
CrossBelow(b, m, i, x) ==
  IF i = 1 THEN FClose(x, b.w[1], "1e-6", "0.0")
  ELSE /\ FLe(FMul(b.w[i - 1], "0.999999"), x) /\ FLe(x, FMul(b.w[i], "1.000001"))
       /\ FClose(SplineAt(b.w, b.p, m, x), HalfMax(b), "1e-4", "0.0")
CrossAbove(b, m, i, x) ==
  IF i = Len(b.w) THEN FClose(x, b.w[i], "1e-6", "0.0")
  ELSE /\ FLe(FMul(b.w[i], "0.999999"), x) /\ FLe(x, FMul(b.w[i + 1], "1.000001"))
       /\ FClose(SplineAt(b.w, b.p, m, x), HalfMax(b), "1e-4", "0.0")

MagOrNone(x, want) ==
  IF want = "none" THEN x.s = <<-1>>
  ELSE x.s = <<>> /\ FClose(x.v[1], want, "0.0", TolM)

\* o.r: wave, response, lambda_eff, fwhm_low, fwhm_high, fwhm, solar, vega2ab
\* (not defined: shape <<-1>>)
JDescr(b0, sun(_), veg(_), o) ==
  LET b == TLCEval(Sorted(b0))
      m == TLCEval(SplineM(b.w, b.p))
  IN Then(o, 8,
       << Cl("wavelengths sorted", o.r[1].s = <<Len(b.w)>> /\ AllClose(o.r[1].v, b.w, "1e-6")),
          Cl("response follows its wavelength",
             o.r[2].s = <<Len(b.w)>> /\ AllClose(o.r[2].v, b.p, "1e-6")),
          Cl("effective wavelength", o.r[3].s = <<>> /\ FClose(o.r[3].v[1], LambdaEff(b), "1e-5", "0.0")),
          Cl("lower half-maximum limit", o.r[4].s = <<>> /\ CrossBelow(b, m, FirstAbove(b), o.r[4].v[1])),
          Cl("upper half-maximum limit", o.r[5].s = <<>> /\ CrossAbove(b, m, LastAbove(b), o.r[5].v[1])),
          Cl("width is the difference of the limits",
             o.r[6].s = <<>> /\ o.r[4].s = <<>> /\ o.r[5].s = <<>> /\
             FClose(o.r[6].v[1], FSub(o.r[5].v[1], o.r[4].v[1]), "1e-4", "1e-3")),
          Cl("solar magnitude", MagOrNone(o.r[7], sun(b))),
          Cl("Vega to AB", MagOrNone(o.r[8], veg(b))) >>)
============================================================================
