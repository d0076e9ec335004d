------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Judgement of one recorded query against the reply the session specifies.*)
(* a: [kc, props, bands, q] (Session!Query); q: arguments; o: outcome      *)
(* ([t |-> "ok", r |-> results] or [t |-> "exc", e |-> type]).             *)
(* CONSTANT SunMag(_): solar magnitude of a band, or "none".               *)
(***************************************************************************)
EXTENDS Answers

CONSTANT SunMag(_)

Objs(z) == 1..Num(z)

MustReject(o) == << Cl("malformed call rejected", Rejected(o)) >>
Accepts(o, n) == << Cl("call accepted", o.t = "ok"),
                    Cl("number of results", o.t = "ok" => Len(o.r) = n) >>
\* evaluated only when the call returned n results
Then(o, n, cls) == Accepts(o, n) \o (IF o.t = "ok" /\ Len(o.r) = n THEN cls ELSE <<>>)
ShapeCl(a, s) == Cl("result shape", a.s = s)
\* row-wise clause, guarded by shape
Rows(n, z, ok, P(_)) == Cl(n, ok => \A i \in Objs(z) : P(i))

---------------------------------------------------------------------------
JFit(kc, q, o) ==
  LET z == q.z
      good == ZOk(z) /\ PerObject(q.m, z, NB(kc)) /\ PerObject(q.iv, z, NB(kc))
      m(i)  == ToABm(kc, RowOf(q.m, i, IsArr(z)))
      iv(i) == ToABiv(kc, RowOf(q.iv, i, IsArr(z)))
      zz(i) == ScalarOf(z, i)
  IN IF ~good THEN MustReject(o)
     ELSE IF q.fault = "broken" /\ o.t = "exc" THEN <<>>        \* the solver gives up: no answer
     ELSE IF q.mc = 0
     THEN Then(o, 1,
       LET c == o.r[1]
           shp == c.s = ResShape(z, NT(kc))
       IN << ShapeCl(c, ResShape(z, NT(kc))),
             Rows("coefficients are the nonnegative optimum", z, shp,
                  LAMBDA i : FitRow(kc, zz(i), m(i), iv(i), RowOf(c, i, IsArr(z)))) >>)
     ELSE Then(o, 3,
       LET c == o.r[1]  cm == o.r[2]  mm == o.r[3]
           shp == /\ c.s = ResShape(z, NT(kc))
                  /\ cm.s = ResShapeMC(z, NT(kc), q.mc)
                  /\ mm.s = ResShapeMC(z, NB(kc), q.mc)
           cd(i, d) == Draw(RowOf(cm, i, IsArr(z)), d, q.mc)
           md(i, d) == Draw(RowOf(mm, i, IsArr(z)), d, q.mc)
       IN << Cl("Monte Carlo result shapes", shp),
             Rows("base coefficients are the nonnegative optimum", z, shp,
                  LAMBDA i : FitRow(kc, zz(i), m(i), iv(i), RowOf(c, i, IsArr(z)))),
             Rows("coefficients of each draw are optimal for its maggies", z, shp,
                  LAMBDA i : \A d \in 1..q.mc : FitRow(kc, zz(i), md(i, d), iv(i), cd(i, d))),
             Rows("bands without weight are not perturbed", z, shp,
                  LAMBDA i : \A d \in 1..q.mc : \A b \in 1..NB(kc) :
                     ~FPos(iv(i)[b]) => FClose(md(i, d)[b], m(i)[b], "1e-6", "0.0")),
             Rows("objects out of range are not perturbed", z, shp,
                  LAMBDA i : ~InRange(kc, zz(i)) =>
                     \A d \in 1..q.mc : VClose(md(i, d), m(i), "1e-6", "0.0")),
             \* (of very many draws a few may coincide in single precision)
             Rows("draws of weighted bands differ", z, shp,
                  LAMBDA i : InRange(kc, zz(i)) =>
                     \A b \in 1..NB(kc) : FPos(iv(i)[b]) =>
                       LET D == {md(i, d)[b] : d \in 1..q.mc}
                       IN /\ Cardinality(D) >= q.mc - (q.mc \div 8)
                          /\ Cardinality({d \in 1..q.mc : FEq(md(i, d)[b], m(i)[b])}) <= q.mc \div 8),
             Rows("perturbations are a few standard deviations", z, shp,
                  LAMBDA i : \A d \in 1..q.mc : \A b \in 1..NB(kc) : FPos(iv(i)[b]) =>
                     FLt(FAbs(FMul(FSub(md(i, d)[b], m(i)[b]), FSqrt(iv(i)[b]))), "9.0")) >>)

---------------------------------------------------------------------------
JRecon(kc, q, o) ==
  LET z == q.z
      A == IF q.which = "out" THEN kc.Aout ELSE kc.A
      good == ZOk(z) /\ PerObject(q.c, z, NT(kc))
      zs(i) == Shifted(ScalarOf(z, i), q.bs)
      defined == \A i \in Objs(z) : InRange(kc, zs(i))
      shape == ResShape(z, IF q.which = "out" THEN NO(kc) ELSE NB(kc))
  IN IF ~good THEN MustReject(o)
     ELSE IF ~defined
     THEN << Cl("out of range is a ValueError", o.t = "exc" /\ o.e = "ValueError") >>
     ELSE Then(o, 1,
       << ShapeCl(o.r[1], shape),
          Rows("matrix at the shifted redshift, renormalised", z, o.r[1].s = shape,
               LAMBDA i : VCloseScaled(RowOf(o.r[1], i, IsArr(z)),
                            ReconRow(kc, A, ScalarOf(z, i), q.bs, RowOf(q.c, i, IsArr(z))),
                            TolA)) >>)

---------------------------------------------------------------------------
JKcor(kc, q, o) ==
  LET z == q.z
      good == ZOk(z) /\ PerObject(q.c, z, NT(kc))
      defined == \A i \in Objs(z) : KcorDefined(kc, ScalarOf(z, i), q.bs)
      shape == ResShape(z, NO(kc))
      c(i) == RowOf(q.c, i, IsArr(z))
      k(i) == RowOf(o.r[1], i, IsArr(z))
  IN IF ~good THEN MustReject(o)
     ELSE IF ~defined
     THEN << Cl("out of range is a ValueError", o.t = "exc" /\ o.e = "ValueError") >>
     ELSE Then(o, 1,
       LET shp == o.r[1].s = shape IN
       << ShapeCl(o.r[1], shape),
          Rows("zero coefficients give zero", z, shp,
               LAMBDA i : ~SumPos(c(i)) => AllZero(k(i))),
          Rows("K-correction by definition", z, shp,
               LAMBDA i : VCloseDef(k(i), KcorRow(kc, ScalarOf(z, i), q.bs, c(i)), TolM)),
          Rows("band shift to the redshift gives -2.5 log10(1+z)", z, shp,
               LAMBDA i : FEq(ScalarOf(z, i), q.bs) /\ SumPos(c(i)) =>
                 \A b \in 1..NO(kc) : kc.out[b] = kc.map[b] =>
                    FClose(k(i)[b], Mag(ZP1(q.bs)), "0.0", TolM)) >>)

---------------------------------------------------------------------------
\* names of the results of absmag, in order
AbsNames(opts) == <<"absmag">> \o (IF opts.rec THEN <<"reconstruct">> ELSE <<>>)
                  \o (IF opts.lim THEN <<"limit">> ELSE <<>>)
                  \o (IF opts.k THEN <<"kcorrect">> ELSE <<>>)

\* expected value of result nm for one object (m, iv AB)
AbsExpected(kc, nm, z, bs, dm, m, iv, c) ==
  LET k == TLCEval(KcorRow(kc, z, bs, c))
  IN CASE nm = "absmag" -> AbsmagRow(kc, k, dm, m, iv)
       [] nm = "reconstruct" -> ReconAbsRow(kc, z, k, dm, c)
       [] nm = "limit" -> LimitRow(kc, k, dm, iv, c)
       [] nm = "kcorrect" -> k

\* distance modulus of object i: from the distance given or the cosmology
DMOf(q, i) == IF Given(q.dist) THEN DistMod(ScalarOf(q.dist, i)) ELSE ScalarOf(q.dm, i)
\* a distance argument has the same number of objects as redshift
DistOk(q) == ~Given(q.dist) \/ (q.dist.s = q.z.s)

SentinelsAgree(x, y) ==
  \A b \in 1..Len(y) : FFinite(y[b]) => ((y[b] = Sentinel) <=> FLt(x[b], "-5000.0"))

JAbsmag(kc, q, o) ==
  LET z == q.z
      good == /\ ZOk(z) /\ PerObject(q.m, z, NB(kc)) /\ PerObject(q.iv, z, NB(kc))
              /\ PerObject(q.c, z, NT(kc)) /\ DistOk(q)
      defined == \A i \in Objs(z) : KcorDefined(kc, ScalarOf(z, i), q.bs)
      names == AbsNames(q.opts)
      shape == ResShape(z, NO(kc))
      m(i)  == ToABm(kc, RowOf(q.m, i, IsArr(z)))
      iv(i) == ToABiv(kc, RowOf(q.iv, i, IsArr(z)))
      x(n, i) == TLCEval(AbsExpected(kc, names[n], ScalarOf(z, i), q.bs, DMOf(q, i), m(i), iv(i),
                             RowOf(q.c, i, IsArr(z))))
      cls(n) ==
        LET shp == o.r[n].s = shape IN
        << ShapeCl(o.r[n], shape),
           Rows(names[n] \o " value", z, shp,
                LAMBDA i : LET e == x(n, i)  g == RowOf(o.r[n], i, IsArr(z))
                           IN SentinelsAgree(g, e) /\ VCloseDef(g, e, TolM)) >>
  IN IF ~good THEN MustReject(o)
     ELSE IF ~defined
     THEN << Cl("out of range is a ValueError", o.t = "exc" /\ o.e = "ValueError") >>
     ELSE Then(o, Len(names), FlattenSeq([n \in 1..Len(names) |-> cls(n)]))

JAbsmagMC(kc, q, o) ==
  LET z == q.z
      mc == q.mc
      names == AbsNames(q.opts)
      shape == ResShapeMC(z, NO(kc), mc)
      good == /\ ZOk(z) /\ PerObjectMC(q.m, z, NB(kc), mc) /\ PerObject(q.iv, z, NB(kc))
              /\ PerObjectMC(q.c, z, NT(kc), mc) /\ DistOk(q)
      iv(i) == RowOf(q.iv, i, IsArr(z))
      x(n, i, d) == TLCEval(AbsExpected(kc, names[n], ScalarOf(z, i), q.bs, DMOf(q, i),
                                Draw(RowOf(q.m, i, IsArr(z)), d, mc), iv(i),
                                Draw(RowOf(q.c, i, IsArr(z)), d, mc)))
      cls(n) ==
        LET shp == o.r[n].s = shape IN
        << ShapeCl(o.r[n], shape),
           Rows(names[n] \o " of each draw", z, shp,
                LAMBDA i : \A d \in 1..mc :
                  LET e == x(n, i, d)  g == Draw(RowOf(o.r[n], i, IsArr(z)), d, mc)
                  IN SentinelsAgree(g, e) /\ VCloseDef(g, e, TolM)) >>
      defined == \A i \in Objs(z) : KcorDefined(kc, ScalarOf(z, i), q.bs)
  IN IF ~good \/ ~defined THEN << Cl("malformed call rejected", o.t = "exc") >>
     ELSE Then(o, Len(names), FlattenSeq([n \in 1..Len(names) |-> cls(n)]))

---------------------------------------------------------------------------
DShape(z, key, no) ==
  IF key = "mtol" THEN ResShape(z, no) ELSE IF IsArr(z) THEN <<z.s[1]>> ELSE <<>>
DRow(a, key, i, arr) ==
  IF key = "mtol" THEN RowOf(a, i, arr) ELSE IF arr THEN <<a.v[i]>> ELSE a.v

JDerived(kc, props, bands, q, o) ==
  LET z == q.z
      sun == TLCEval([b \in 1..Len(bands) |-> SunMag(bands[b])])
      good == ZOk(z) /\ PerObject(q.c, z, NT(kc)) /\ DistOk(q)
      defined == InRange(kc, Shifted("0.0", q.bs))
      x(i) == DerivedRow(kc, props, sun, q.bs, DMOf(q, i), RowOf(q.c, i, IsArr(z)))
      E == TLCEval([i \in Objs(z) |-> x(i)])
      cls(n) ==
        LET key == DKeys[n]
            shp == o.r[n].s = DShape(z, key, NO(kc))
        IN << ShapeCl(o.r[n], DShape(z, key, NO(kc))),
              Rows(key, z, shp,
                   LAMBDA i : VCloseScaled(DRow(o.r[n], key, i, IsArr(z)), E[i][key], TolD)) >>
  IN IF ~good THEN MustReject(o)
     ELSE IF ~defined
     THEN << Cl("out of range is a ValueError", o.t = "exc" /\ o.e = "ValueError") >>
     ELSE Then(o, Len(DKeys), FlattenSeq([n \in 1..Len(DKeys) |-> cls(n)]))

JDerivedMC(kc, props, bands, q, o) ==
  LET z == q.z
      mc == q.mc
      sun == TLCEval([b \in 1..Len(bands) |-> SunMag(bands[b])])
      good == ZOk(z) /\ PerObjectMC(q.c, z, NT(kc), mc) /\ DistOk(q)
      E == TLCEval([i \in Objs(z) |-> [d \in 1..mc |->
              DerivedRow(kc, props, sun, q.bs, DMOf(q, i), Draw(RowOf(q.c, i, IsArr(z)), d, mc))]])
      shape(key) == DShape(z, key, NO(kc)) \o <<mc>>
      row(a, key, i, d) ==
        IF key = "mtol" THEN Draw(RowOf(a, i, IsArr(z)), d, mc)
        ELSE IF IsArr(z) THEN <<a.v[(i - 1) * mc + d]>> ELSE <<a.v[d]>>
      cls(n) ==
        LET key == DKeys[n]
            shp == o.r[n].s = shape(key)
        IN << ShapeCl(o.r[n], shape(key)),
              Rows(key \o " of each draw", z, shp,
                   LAMBDA i : \A d \in 1..mc :
                     VCloseScaled(row(o.r[n], key, i, d), E[i][d][key], TolD)) >>
      defined == InRange(kc, Shifted("0.0", q.bs))
  IN IF ~good \/ ~defined THEN << Cl("malformed call rejected", o.t = "exc") >>
     ELSE Then(o, Len(DKeys), FlattenSeq([n \in 1..Len(DKeys) |-> cls(n)]))

---------------------------------------------------------------------------
JudgeQuery(a, o) ==
  LET kc == a.kc  q == a.q IN
  CASE q.k = "fit"        -> JFit(kc, q, o)
    [] q.k = "recon"      -> JRecon(kc, q, o)
    [] q.k = "kcor"       -> JKcor(kc, q, o)
    [] q.k = "absmag"     -> JAbsmag(kc, q, o)
    [] q.k = "absmag_mc"  -> JAbsmagMC(kc, q, o)
    [] q.k = "derived"    -> JDerived(kc, a.props, a.bands, q, o)
    [] q.k = "derived_mc" -> JDerivedMC(kc, a.props, a.bands, q, o)
============================================================================
