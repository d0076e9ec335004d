------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real code.  Each line of the   *)
(* trace is one public call (or one change of a file): it takes the action *)
(* of Session with the recorded arguments, and the recorded outcome is     *)
(* judged against what the specification says the call returns.  Verdicts  *)
(* are total: every line is consumed, failing clauses are collected in bad.*)
(***************************************************************************)
EXTENDS Funcs, Json, IOUtils

TraceFile == IOEnv.TRACE
OutFile   == IOEnv.VERDICT
Log == ndJsonDeserialize(TraceFile)

\* first line: reference spectra (Sun, Vega); empty if not needed
Head1 == Log[1]
RefM(name) == SplineM(Head1[name].w, Head1[name].f)
SunSpline == RefM("sun")
VegaSpline == RefM("vega")

\* magnitude of a reference spectrum through a band: as Project, but with
\* the spline of the (long) reference spectrum computed once
RefMag(ref, m, b) ==
  IF ~Overlap(ref.w, b) THEN "none"
  ELSE LET g == TLCEval(IntGrid(ref.w, b))
           rw == TLCEval(VMap2(FMul, Spline(b.w, b.p, g), g))
           dn == Trapz(g, [i \in 1..Len(g) |-> FMul(ABFlux(g[i]), rw[i])])
           nu == Trapz(g, [i \in 1..Len(g) |-> FMul(SplineAt(ref.w, ref.f, m, g[i]), rw[i])])
           x == FDiv(nu, dn)
       IN IF FPos(x) THEN Mag(x) ELSE "none"
SunMagOf(b)  == RefMag(Head1.sun, SunSpline, b)
VegaMagOf(b) == RefMag(Head1.vega, VegaSpline, b)

VARIABLES disk, reg, seds, kcs, rsps, last, l, bad, memo, nj

S == INSTANCE Session WITH ShW <- ShiftWave, ShF <- ShiftFlux, Prj <- Project, Z0 <- "0.0"

tvars == <<disk, reg, seds, kcs, rsps, last, l, bad, memo, nj>>

E == Log[l]
\* an object the code failed to make is not used any further
Missing ==
  \/ E.op \in {"CheckKc", "Amat", "Query", "SaveKc", "Hold"} /\ E.k \notin DOMAIN kcs
  \/ E.op \in {"SetZ", "SetInterp", "CheckSed", "Interp", "SaveSed", "PokeT"} /\ E.s \notin DOMAIN seds
  \/ E.op = "Project" /\ E.via = "sed" /\ E.s \notin DOMAIN seds
  \/ E.op \in {"NewKc", "NewFitter", "NewDefault", "Plot"} /\ E.s \notin DOMAIN seds
  \/ E.op \in {"SetA", "CheckFit"} /\ E.k \notin DOMAIN kcs
  \/ E.op = "Amat" /\ kcs[E.k].A = <<>>
  \/ E.op \in {"SaveRsp", "CheckRsp"} /\ E.r \notin DOMAIN rsps
  \/ E.op = "ProjectRsp" /\ (E.r \notin DOMAIN rsps \/ E.s \notin DOMAIN seds)
  \/ E.op = "Func" /\ E.f = "descr" /\ "n" \in DOMAIN E.q /\ E.q.n \notin DOMAIN reg
Is(op) == l <= Len(Log) /\ E.op = op /\ ~Missing

Fails(cls) == SelectSeq(cls, LAMBDA c : ~c.ok)
\* What a call may touch outside the objects it is about: the random numbers
\* it draws, the file it is told to write.  (E.world: what else of the process
\* - random numbers, numpy and process settings, files - is not as before.)
Touched ==
  CASE E.op = "Query" /\ E.q.k = "fit" /\ E.q.mc > 0 -> {"random numbers"}
    [] E.op \in {"SaveSed", "SaveKc", "SaveRsp"} -> {E.p}
    [] OTHER -> {}
WorldCl ==
  IF "world" \notin DOMAIN E THEN <<>>
  ELSE << Cl("the rest of the process and its files are as they were", ToSet(E.world) \subseteq Touched) >>

\* cls: clauses judged at this line
Judge(cls0) ==
  LET cls == cls0 \o WorldCl
      f == TLCEval(Fails(cls))
  IN /\ bad' = bad \o [i \in 1..Len(f) |-> [line |-> l, op |-> E.op, clause |-> f[i].c]]
     /\ nj' = nj + Len(cls)
Step == l' = l + 1


\* arguments the caller passed are as they were
ArgsKept == << Cl("arguments unchanged", E.mut = <<>>) >>

\* C23: the same call answers the same, however often and whenever
Memo(key, o) ==
  IF key \in DOMAIN memo
  THEN << Cl("same question, same answer",
             LET p == memo[key] IN
             /\ p.t = o.t
             /\ o.t = "ok" =>
                  /\ Len(p.r) = Len(o.r)
                  /\ \A n \in 1..Len(o.r) :
                       /\ p.r[n].s = o.r[n].s
                       /\ \A i \in 1..Len(o.r[n].v) :
                             FClose(o.r[n].v[i], p.r[n].v[i], "1e-5", "1e-30")) >>
  ELSE <<>>

\* a handle (or file) now stands for something else
Forget(k) == [x \in {x \in DOMAIN memo : x[1] # k} |-> memo[x]]
\* k answers as what is known by the name j does
Inherit(m, k, j) ==
  LET qs == {x[2] : x \in {x \in DOMAIN memo : x[1] = j}}
  IN [x \in DOMAIN m \cup {<<k, q>> : q \in qs} |-> IF x[1] = k THEN memo[<<j, x[2]>>] ELSE m[x]]

OutcomeIs(o, expect) ==
  << Cl(IF expect = "ok" THEN "call accepted" ELSE "call fails",
        IF expect = "ok" THEN o.t = "ok" ELSE o.t = "exc") >>

---------------------------------------------------------------------------
(* observations of objects *)
RowsOf(a) == [i \in 1..a.s[1] |-> RowOf(a, i, TRUE)]
MatClose(a, rows, rtol) ==
  /\ a.s = <<Len(rows), Len(rows[1])>>
  /\ \A i \in 1..Len(rows) : VCloseScaled(RowOf(a, i, TRUE), rows[i], rtol)

SedCl(x, s) ==
  << Cl("observed wavelengths", x.w.s = <<Len(s.w)>> /\ VClose(x.w.v, s.w, "1e-6", "0.0")),
     Cl("observed fluxes", MatClose(x.f, s.f, "1e-6")),
     Cl("rest-frame wavelengths", x.rw.s = <<Len(s.rw)>> /\ VClose(x.rw.v, s.rw, "1e-6", "0.0")),
     Cl("rest-frame fluxes", MatClose(x.rf, s.rf, "1e-6")),
     Cl("redshift", FClose(x.z, s.z, "1e-6", "1e-9")),
     Cl("number of spectra", x.nsed = Len(s.rf)) >>

PropKeys == <<"intsfh", "mremain", "mets", "m50", "m300", "m1000">>
PropCl(x, p) ==
  IF "intsfh" \notin DOMAIN p THEN <<>>
  ELSE [n \in 1..6 |-> Cl(PropKeys[n] \o " of the templates",
          VClose(x.props[PropKeys[n]], p[PropKeys[n]], "1e-6", "0.0"))]

\* matrix entries, per template relative to its largest
ACl(name, x, A) ==
  LET nb == Len(A[1])  nt == Len(A[1][1])
      big == TLCEval([j \in 1..nt |-> VMax([k \in 1..(Len(A) * nb) |->
                FAbs(A[((k - 1) \div nb) + 1][((k - 1) % nb) + 1][j])])])
      at(i, b, j) == x.v[((i - 1) * nb + (b - 1)) * nt + j]
  IN << Cl(name \o " shape", x.s = <<Len(A), nb, nt>>),
        Cl(name \o " holds the projections of the templates",
           x.s = <<Len(A), nb, nt>> =>
             \A i \in 1..Len(A) : \A b \in 1..nb : \A j \in 1..nt :
               FClose(at(i, b, j), A[i][b][j], "2e-5", FMul("2e-6", big[j]))) >>

KcCl(x, k) ==
  << Cl("responses", x.resp = k.resp), Cl("output responses", x.out = k.out),
     Cl("mapping", x.map = k.map),
     Cl("mapping index", x.imap = [i \in 1..Len(k.imap) |-> k.imap[i] - 1]),
     Cl("redshift grid", VClose(x.zg, k.zg, "1e-6", "1e-7")),
     Cl("number of redshifts", x.nz = Len(k.zg)),
     Cl("redshift range", VClose(x.zr, <<k.zg[1], k.zg[Len(k.zg)]>>, "1e-6", "1e-7")),
     Cl("AB flag", x.ab = k.opt.ab) >>
  \o ACl("design matrix", x.A, k.A)
  \o ACl("output design matrix", x.Aout, k.Aout)

\* a plain fitter
FitCl(x, k) ==
  << Cl("responses", x.resp = k.resp),
     Cl("redshift grid", VClose(x.zg, k.zg, "1e-6", "1e-7")),
     Cl("number of redshifts", x.nz = Len(k.zg)),
     Cl("redshift range", VClose(x.zr, <<k.zg[1], k.zg[Len(k.zg)]>>, "1e-6", "1e-7")),
     Cl("AB flag", x.ab = k.opt.ab) >>
  \o (IF k.A = <<>> THEN << Cl("no matrix before it is computed", ~Given(x.A)) >>
      ELSE ACl("design matrix", x.A, k.A))

BandCl(x, b) ==
  << Cl("registered wavelengths", x.w.s = <<Len(b.w)>> /\ VClose(x.w.v, b.w, "1e-6", "0.0")),
     Cl("registered response", x.p.s = <<Len(b.w)>> /\ VClose(x.p.v, b.p, "1e-6", "1e-12")) >>

---------------------------------------------------------------------------
(* what a plot of spectra shows: for each spectrum the positive samples,   *)
(* log wavelength and log (wavelength times flux); the limits asked for    *)
PlotPts(w, f) == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : FPos(f[i]))
PlotCl(o, s, ix, lim) ==
  LET lf(j, i) == FMul(s.w[i], s.f[j][i])
      In(i) == FLt(lim[1], s.w[i]) /\ FLt(s.w[i], lim[2])
      vals == TLCEval(FlattenSeq([n \in 1..Len(ix) |->
                LET k == SelectSeq([i \in 1..Len(s.w) |-> i], LAMBDA i : In(i) /\ FPos(s.f[ix[n]][i]))
                IN [m \in 1..Len(k) |-> lf(ix[n], k[m])]]))
  IN << Cl("one line per spectrum, on one set of axes", Len(o.lines) = Len(ix) /\ o.nfig = 1),
        Cl("log of wavelength against log of wavelength times flux, where positive",
           Len(o.lines) = Len(ix) =>
             \A n \in 1..Len(ix) :
               LET k == TLCEval(PlotPts(s.w, s.f[ix[n]]))  ln == o.lines[n]
               IN /\ Len(ln.x) = Len(k) /\ Len(ln.y) = Len(k)
                  /\ \A m \in 1..Len(k) : /\ FClose(ln.x[m], FLog10(s.w[k[m]]), "0.0", "1e-5")
                                          /\ FClose(ln.y[m], FLog10(lf(ix[n], k[m])), "0.0", "1e-4")) >>
     \o (IF lim = <<>> THEN <<>> ELSE
         << Cl("wavelength limits", VClose(o.xlim, <<FLog10(lim[1]), FLog10(lim[2])>>, "0.0", "1e-5")),
            Cl("flux limits hold what is in the wavelength limits",
               VClose(o.ylim, <<FSub(FLog10(VMin(vals)), "0.1"), FAdd(FLog10(VMax(vals)), "0.1")>>, "0.0", "1e-4")) >>)

---------------------------------------------------------------------------
Grid(lo, hi, n) ==
  TLCEval([i \in 1..n |-> IF i = n THEN hi ELSE FAdd(lo, FMul(FSub(hi, lo), FDiv(FOfInt(i - 1), FOfInt(n - 1))))])

TInit == S!Init0(<<>>) /\ l = 2 /\ bad = <<>> /\ memo = <<>> /\ nj = 0

Keep == UNCHANGED memo

TWriteDat == /\ Is("WriteDat") /\ Step /\ Keep
             /\ S!WriteFile(E.p, S!DatFile(Sorted([w |-> E.w, p |-> E.v])))
             /\ Judge(<<>>)
TBadDat   == /\ Is("BadDat") /\ Step /\ Keep /\ S!WriteFile(E.p, S!BadFile) /\ Judge(<<>>)
TRmFile   == /\ Is("RmFile") /\ Step /\ Keep /\ S!RemoveFile(E.p) /\ Judge(<<>>)

TLoad == /\ Is("Load") /\ Step /\ Keep
         /\ S!Load(E.n, E.reload)
         /\ Judge(OutcomeIs(E.o, IF last'.t = "ok" THEN "ok" ELSE "exc")
                  \o << Cl("one registry per process", E.single),
                        Cl("registered names", ToSet(E.names) = DOMAIN reg') >>
                  \o (IF last'.t = "ok" /\ E.o.t = "ok" THEN BandCl(E.o.b, last'.v) ELSE <<>>))

\* observation of the registry at any time
TCheckReg == /\ Is("CheckReg") /\ Step /\ Keep
             /\ S!Pure(S!Nothing)
             /\ Judge(<< Cl("registered names", ToSet(E.names) = DOMAIN reg) >>
                      \o FlattenSeq([i \in 1..Len(E.bands) |->
                           IF E.bands[i].n \in DOMAIN reg
                           THEN BandCl(E.bands[i], reg[E.bands[i].n]) ELSE <<>>]))

\* listing a directory: names of .dat files there, only loadable ones if
\* validity is checked (which registers them)
TList == /\ Is("List") /\ Step /\ Keep
         /\ LET here == {p \in DOMAIN disk : p \in ToSet(E.dir) /\ disk[p].t \in {"dat", "bad"}}
                good == {p \in here : p \in DOMAIN reg \/ S!Loadable(p)}
                l1 == S!LoadAll(reg, SetToSeq(good))
            IN /\ reg' = IF E.check THEN l1.r ELSE reg
               /\ last' = S!Ok(IF E.check THEN good ELSE here)
               /\ UNCHANGED <<disk, seds, kcs, rsps>>
         /\ Judge(OutcomeIs(E.o, "ok")
                  \o << Cl("lists each response of the directory once",
                          E.o.t = "ok" => Len(E.o.names) = Cardinality(ToSet(E.o.names))),
                        Cl("lists exactly the (valid) responses of the directory",
                          E.o.t = "ok" => ToSet(E.o.names) = last'.v),
                        Cl("registered names", ToSet(E.names) = DOMAIN reg') >>)

TNewSed == /\ Is("NewSed") /\ Step /\ Keep
           /\ S!NewSed(E.s, E.w, RowsOf(E.f), E.props)
           /\ Judge(OutcomeIs(E.o, "ok") \o
                    (IF E.o.t = "ok" THEN SedCl(E.o.x, seds'[E.s]) \o PropCl(E.o.x, E.props) ELSE <<>>))

TSetZ == /\ Is("SetZ") /\ Step /\ Keep
         /\ S!SetZ(E.s, E.z)
         /\ Judge(OutcomeIs(E.o, "ok") \o (IF E.o.t = "ok" THEN SedCl(E.o.x, seds'[E.s]) \o PropCl(E.o.x, seds[E.s].props) ELSE <<>>))

\* a spectrum set gets an interpolator: no visible change
TSetInterp == /\ Is("SetInterp") /\ Step /\ Keep
              /\ S!Pure(S!Nothing)
              /\ Judge(OutcomeIs(E.o, "ok") \o (IF E.o.t = "ok" THEN SedCl(E.o.x, seds[E.s]) ELSE <<>>))

TCheckSed == /\ Is("CheckSed") /\ Step /\ Keep
             /\ S!Pure(S!Nothing)
             /\ Judge(SedCl(E.o.x, seds[E.s]) \o PropCl(E.o.x, seds[E.s].props))

\* value of an SED's interpolator at given wavelengths
TInterp == /\ Is("Interp") /\ Step /\ Keep
           /\ S!Pure(S!Nothing)
           /\ Judge(OutcomeIs(E.o, "ok") \o (IF E.o.t # "ok" THEN <<>> ELSE
                << Cl("spline of the observed spectrum, zero outside",
                      MatClose(E.o.r[1], [j \in 1..Len(seds[E.s].f) |->
                               SplineOf(seds[E.s].w, seds[E.s].f[j], E.w)], "2e-5")) >>))

TPlot == /\ Is("Plot") /\ Step /\ Keep
         /\ S!Pure(S!Nothing)
         /\ LET s == seds[E.s]
                ix == IF E.all THEN [i \in 1..Len(s.f) |-> i] ELSE [n \in 1..Len(E.indx) |-> E.indx[n] + 1]
            IN Judge(OutcomeIs(E.o, "ok") \o ArgsKept \o
                     (IF E.o.t = "ok" THEN PlotCl(E.o, s, ix, E.lim) \o SedCl(E.o.x, s) ELSE <<>>))

ProjCl(o, want) ==
  LET n == Len(want)
      zero == \A j \in 1..n : FEq(want[j], "0.0")
      v == IF o.r[1].s = <<>> THEN [j \in 1..n |-> o.r[1].v[1]] ELSE o.r[1].v
  IN << Cl("one value per spectrum",
           o.r[1].s = (IF n = 1 THEN <<>> ELSE <<n>>) \/ (zero /\ o.r[1].s \in {<<>>, <<n>>})),
        Cl("projection onto the band",
           Len(v) = n /\ \A j \in 1..n : FClose(v[j], want[j], "2e-5", "1e-37")) >>

TProject == /\ Is("Project") /\ Step /\ Keep
            /\ IF E.n \notin DOMAIN reg THEN S!Pure(S!Err)
               ELSE IF E.via = "sed" THEN S!ProjectSed(E.s, E.n)
               ELSE S!Pure(S!Ok(Project(E.w, RowsOf(E.f), reg[E.n])))
            /\ Judge(IF last'.t = "err" THEN OutcomeIs(E.o, "exc")     \* response not loaded
                     ELSE OutcomeIs(E.o, "ok") \o ArgsKept \o
                          (IF E.o.t = "ok" THEN ProjCl(E.o, last'.v) ELSE <<>>))

\* a projection of arrays that do not fit together
TProjectBad == /\ Is("ProjectBad") /\ Step /\ Keep
               /\ S!Pure(S!Err) /\ Judge(MustReject(E.o))

(* bandpass objects of the caller's own *)
RegKept == << Cl("registered names", ToSet(E.names) = DOMAIN reg) >>
RspCl(o, b) == JDescr(b, SunMagOf, VegaMagOf, o) \o
               (IF o.t = "ok" THEN << Cl("number of wavelengths", o.n = Len(b.w)) >> ELSE <<>>)
TNewRsp == /\ Is("NewRsp") /\ Step /\ Keep
           /\ S!NewRsp(E.r, Sorted([w |-> E.w, p |-> E.v]))
           /\ Judge(RspCl(E.o, rsps'[E.r]) \o ArgsKept \o RegKept)
TRspDat == /\ Is("RspDat") /\ Step /\ Keep
           /\ S!RspFromDat(E.r, E.n)
           /\ Judge((IF last'.t = "ok" THEN RspCl(E.o, last'.v) ELSE OutcomeIs(E.o, "exc")) \o RegKept)
TSaveRsp == /\ Is("SaveRsp") /\ Step /\ Keep
            /\ S!SaveRsp(E.r, E.p, E.ext, E.clobber)
            /\ Judge(OutcomeIs(E.o, IF last'.t = "ok" THEN "ok" ELSE "exc")
                     \o << Cl("refused write leaves the file as it was", last'.t = "ok" \/ E.samefile) >> \o RegKept)
TRspFits == /\ Is("RspFits") /\ Step /\ Keep
            /\ S!RspFromFits(E.r, E.p, E.ext)
            /\ Judge((IF last'.t = "ok" THEN RspCl(E.o, last'.v) ELSE OutcomeIs(E.o, "exc")) \o RegKept)
TCheckRsp == /\ Is("CheckRsp") /\ Step /\ Keep
             /\ S!Pure(S!Nothing) /\ Judge(RspCl(E.o, rsps[E.r]))
TProjectRsp == /\ Is("ProjectRsp") /\ Step /\ Keep
               /\ S!ProjectRsp(E.s, E.r)
               /\ Judge(OutcomeIs(E.o, "ok") \o (IF E.o.t = "ok" THEN ProjCl(E.o, last'.v) ELSE <<>>))

TNewKc == /\ Is("NewKc") /\ Step
          /\ memo' = Forget(E.k)
          /\ LET cfg == [s |-> E.s, resp |-> E.resp,
                         out |-> IF E.dout THEN E.resp ELSE E.out,
                         map |-> IF E.dmap THEN E.resp ELSE E.map,
                         zg |-> Grid(FF32(E.zlo), FF32(E.zhi), E.nz),
                         opt |-> [ab |-> E.ab, cls |-> E.cls]]
                 ldf == S!LoadFails(cfg)
                 fr == S!Unloaded(cfg) \cap ToSet(E.names)
             IN /\ S!NewKc(E.k, cfg, fr, IF E.o.t = "exc" THEN E.xs.z ELSE "0.0")
                /\ Judge((IF last'.t = "err"
                          THEN << Cl("bad configuration rejected", IF ldf THEN E.o.t = "exc" ELSE Rejected(E.o)) >>
                               \o (IF E.o.t = "exc" THEN SedCl(E.xs, seds'[E.s]) ELSE <<>>)
                          ELSE OutcomeIs(E.o, "ok") \o
                               (IF E.o.t = "ok" THEN KcCl(E.o.x, kcs'[E.k]) ELSE <<>>) \o
                               (IF E.o.t = "ok" /\ E.tdefault
                                THEN SedCl(E.o.xs, seds'[E.s]) \o PropCl(E.o.xs, seds'[E.s].props) ELSE <<>>))
                         \o << Cl("registered names", ToSet(E.names) = DOMAIN reg') >>
                         \o ArgsKept)

\* what is documented to be there when it is not asked for
SdssBands == <<"sdss_u0", "sdss_g0", "sdss_r0", "sdss_i0", "sdss_z0">>
Documented(cls) ==
  CASE cls = "base" -> [resp |-> <<>>, ab |-> FALSE]
    [] cls = "sdss" -> [resp |-> SdssBands, ab |-> TRUE]
    [] cls = "gst"  -> [resp |-> <<"galex_FUV", "galex_NUV">> \o SdssBands \o <<"twomass_J", "twomass_H", "twomass_Ks">>,
                        ab |-> FALSE]
\* E.s: handle that holds the documented templates; the matrix is looked at
\* at some redshifts of the grid only
TNewDefault ==
  /\ Is("NewDefault") /\ Step /\ Keep
  /\ LET doc == Documented(E.cls)
         resp == IF E.given = <<>> THEN doc.resp ELSE E.given
         l1 == S!LoadAll(reg, resp)
         s == seds[E.s]
         zg == Grid("0.0", "2.0", 4000)
         A == TLCEval([i \in 1..Len(E.z) |->
                 LET w == ShiftWave(s.rw, E.z[i])  f == ShiftFlux(s.rf, E.z[i])
                 IN TLCEval([j \in 1..Len(resp) |-> Project(w, f, l1.r[resp[j]])])])
     IN /\ reg' = l1.r
        /\ last' = S!Nothing
        /\ UNCHANGED <<disk, seds, kcs, rsps>>
        /\ Judge(OutcomeIs(E.o, "ok") \o
             (IF E.o.t # "ok" THEN <<>> ELSE
                << Cl("default responses", E.o.x.resp = resp),
                   Cl("default output responses and mapping", E.o.x.out = resp /\ E.o.x.map = resp),
                   Cl("default mapping index", E.o.x.imap = [i \in 1..Len(resp) |-> i - 1]),
                   Cl("default redshift range", E.o.x.zr = <<"0.0", "2.0">>),
                   Cl("default redshift grid", E.o.x.nz = 4000 /\ VClose(E.o.x.zg, zg, "1e-6", "1e-6")),
                   Cl("default AB flag", E.o.x.ab = doc.ab) >>
                \o ACl("design matrix", E.o.x.A, A) \o ACl("output design matrix", E.o.x.Aout, A)
                \o SedCl(E.o.xs, s) \o PropCl(E.o.xs, s.props))
             \o << Cl("registered names", ToSet(E.names) = DOMAIN reg') >>)

TCheckKc == /\ Is("CheckKc") /\ Step /\ Keep
            /\ S!Pure(S!Nothing)
            /\ Judge(KcCl(E.o.x, kcs[E.k]))

TNewFitter == /\ Is("NewFitter") /\ Step
              /\ memo' = Forget(E.k)
              /\ S!NewFitter(E.k, [s |-> E.s, resp |-> E.resp, zg |-> Grid(FF32(E.zlo), FF32(E.zhi), E.nz),
                                   opt |-> [ab |-> E.ab, cls |-> "plain"]])
              /\ Judge(OutcomeIs(E.o, "ok") \o ArgsKept \o
                       (IF E.o.t = "ok" THEN FitCl(E.o.x, kcs'[E.k]) \o SedCl(E.o.xs, seds[E.s]) \o PropCl(E.o.xs, seds[E.s].props) ELSE <<>>)
                       \o << Cl("registered names", ToSet(E.names) = DOMAIN reg') >>)

TSetA == /\ Is("SetA") /\ Step
         /\ LET k == kcs[E.k]
                fr == S!Unloaded([resp |-> k.resp, out |-> k.resp]) \cap ToSet(E.names)
            IN /\ S!SetA(E.k, fr, IF E.o.t = "exc" THEN E.xs.z ELSE "0.0")
               /\ Judge((IF last'.t = "err" THEN OutcomeIs(E.o, "exc")
                         ELSE OutcomeIs(E.o, "ok") \o
                              (IF E.o.t = "ok" THEN FitCl(E.o.x, kcs'[E.k]) ELSE <<>>))
                        \o SedCl(E.xs, seds'[k.s])
                        \o << Cl("registered names", ToSet(E.names) = DOMAIN reg') >>)
         /\ memo' = IF last'.t = "ok" THEN Forget(E.k) ELSE memo

TCheckFit == /\ Is("CheckFit") /\ Step /\ Keep
             /\ S!Pure(S!Nothing)
             /\ Judge(FitCl(E.o.x, kcs[E.k]))

\* matrix at given redshifts
TAmat == /\ Is("Amat") /\ Step /\ Keep
         /\ S!Pure(S!Nothing)
         /\ LET k == kcs[E.k]
                A == IF E.which = "out" THEN k.Aout ELSE k.A
                ok == \A i \in 1..Len(E.z) : InRange(k, E.z[i])
            IN Judge(IF ~ok THEN << Cl("out of range is a ValueError", E.o.t = "exc" /\ E.o.e = "ValueError") >>
                     ELSE Then(E.o, 1, ACl("matrix between grid points", E.o.r[1],
                                           [i \in 1..Len(E.z) |-> AAt(k, A, E.z[i])])))

\* a matrix is kept; template properties are scaled
THold == /\ Is("Hold") /\ Step /\ memo' = Forget(E.h)
         /\ S!Hold(E.k, E.h) /\ Judge(<<>>)
TPokeT == /\ Is("PokeT") /\ Step /\ Keep
          /\ S!SetProps(E.s, [seds[E.s].props EXCEPT ![E.key] = VScale(E.by, @)])
          /\ Judge(<<>>)

\* settings of the process that have no meaning for kcorrect: every action
\* afterwards is as it would have been
TAmbient == /\ Is("Ambient") /\ Step /\ Keep /\ S!Pure(S!Nothing) /\ Judge(<<>>)

\* the cosmology of an object, by its distance moduli
TCosmo == /\ Is("Cosmo") /\ Step /\ Keep /\ S!Pure(S!Nothing)
          /\ Judge(Then(E.o, 1, << Cl("distance moduli of its cosmology", E.o.r[1].s = E.dm.s /\ VClose(E.o.r[1].v, E.dm.v, "0.0", "1e-4")) >>))

\* a fit of asinh magnitudes is one of the maggies they stand for
Asked == IF "asinh" \notin DOMAIN E.q THEN E.q
         ELSE LET p == AsinhPhotometry(E.q.asinh) IN [E.q EXCEPT !.m = p.m, !.iv = p.iv]
\* (a fitter whose matrix has not been computed answers nothing)
TQuery == /\ Is("Query") /\ Step
          /\ IF kcs[E.k].A = <<>> THEN S!Pure(S!Err)
             ELSE S!Query(E.k, Asked, E.q.k \in {"derived", "derived_mc"})
          /\ LET key == <<E.k, E.qid>>
                 det == E.q.k # "fit" \/ E.q.mc = 0
             IN /\ Judge((IF last'.t = "err" THEN OutcomeIs(E.o, "exc")
                          ELSE JudgeQuery(last'.v, E.o))
                         \o ArgsKept \o (IF det /\ E.qid # "" THEN Memo(key, E.o) ELSE <<>>))
                /\ memo' = IF det /\ E.qid # "" /\ key \notin DOMAIN memo
                           THEN S!Upd(memo, key, E.o) ELSE memo

TSaveSed == /\ Is("SaveSed") /\ Step /\ Keep
            /\ S!SaveSed(E.s, E.p, E.clobber)
            /\ Judge(OutcomeIs(E.o, IF last'.t = "ok" THEN "ok" ELSE "exc")
                     \o << Cl("refused write leaves the file as it was", last'.t = "ok" \/ E.samefile) >>)
TLoadSed == /\ Is("LoadSed") /\ Step /\ Keep
            /\ S!LoadSed(E.s, E.p)
            /\ Judge(OutcomeIs(E.o, IF last'.t = "ok" THEN "ok" ELSE "exc") \o
                     (IF last'.t = "ok" /\ E.o.t = "ok"
                      THEN SedCl(E.o.x, seds'[E.s]) \o (IF E.tmpl THEN PropCl(E.o.x, seds'[E.s].props) ELSE <<>>)
                      ELSE <<>>))
TSaveKc == /\ Is("SaveKc") /\ Step
           /\ S!SaveKc(E.k, E.p) /\ Judge(OutcomeIs(E.o, "ok"))
           /\ memo' = Inherit(Forget(E.p), E.p, E.k)
\* the restored object answers as the saved one did (if of the same class)
LoadOpt(p) == IF p \in DOMAIN disk /\ disk[p].t = "kc" THEN disk[p].c.opt ELSE [ab |-> FALSE, cls |-> ""]
TLoadKc == /\ Is("LoadKc") /\ Step
           /\ S!LoadKc(E.k, E.s, E.p, [ab |-> LoadOpt(E.p).ab, cls |-> E.cls])
           /\ Judge(OutcomeIs(E.o, IF last'.t = "ok" THEN "ok" ELSE "exc") \o
                    (IF last'.t = "ok" /\ E.o.t = "ok"
                     THEN KcCl(E.o.x, kcs'[E.k]) \o SedCl(E.o.xs, seds'[E.s])
                          \o PropCl(E.o.xs, seds'[E.s].props)
                     ELSE <<>>))
           /\ memo' = IF last'.t # "ok" THEN memo
                      ELSE IF LoadOpt(E.p).cls = E.cls THEN Inherit(Forget(E.k), E.k, E.p) ELSE Forget(E.k)
TRestart == /\ Is("Restart") /\ Step /\ Keep /\ S!Restart /\ Judge(<<>>)

\* stateless functions
TFunc == /\ Is("Func") /\ Step
         /\ S!Pure(S!Nothing)
         /\ Judge(ArgsKept
              \o (CASE E.f = "sdss_ab" -> JSdssAB(E.q, E.o)
                    [] E.f = "to_ab"   -> JToAB(E.q, E.o)
                    [] E.f = "asinh"   -> JAsinh(E.q, E.o)
                    [] E.f = "floor"   -> JFloor(E.q, E.o)
                    [] E.f = "sed_ab"  -> JSedAB(E.q, E.o)
                    [] E.f = "basel"   -> JBasel(E.q, E.o)
                    [] E.f = "descr"   -> JDescr(IF "n" \in DOMAIN E.q THEN reg[E.q.n] ELSE [w |-> E.q.w, p |-> E.q.v],
                                                  SunMagOf, VegaMagOf, E.o))
              \o (IF E.qid # "" THEN Memo(<<"func", E.qid>>, E.o) ELSE <<>>))
         /\ memo' = IF E.qid # "" /\ <<"func", E.qid>> \notin DOMAIN memo
                    THEN S!Upd(memo, <<"func", E.qid>>, E.o) ELSE memo

\* maggies to flux density: loads the responses it needs
TM2F == /\ Is("M2F") /\ Step /\ Keep
        /\ LET a == S!LoadAll(reg, E.names)
           IN /\ reg' = a.r
              /\ last' = IF a.ok THEN S!Ok([i \in 1..Len(E.names) |-> a.r[E.names[i]]]) ELSE S!Err
              /\ UNCHANGED <<disk, seds, kcs, rsps>>
        /\ Judge(ArgsKept \o (IF last'.t = "err" THEN OutcomeIs(E.o, "exc")
                              ELSE JM2F(last'.v, E.q, E.o))
                 \o << Cl("registered names", ToSet(E.after) = DOMAIN reg') >>)

\* two recorded results that are related (metamorphic relations): equal,
\* multiples, or magnitudes a factor apart
Related(x) == CASE E.rel = "same"   -> x
                [] E.rel = "times"  -> FMul(E.by, x)
                [] E.rel = "fainter" -> IF FEq(x, "-9999.0") THEN x ELSE FAdd(x, FMul("2.5", FLog10(E.by)))
TSame == /\ Is("Same") /\ Step /\ Keep
         /\ S!Pure(S!Nothing)
         /\ Judge(<< Cl(E.what,
                /\ E.a.s = E.b.s
                /\ \A i \in 1..Len(E.b.v) : FClose(E.a.v[i], Related(E.b.v[i]), E.rtol, E.atol)) >>)

\* two recorded results that must not be the same
TDiffer == /\ Is("Differ") /\ Step /\ Keep
           /\ S!Pure(S!Nothing)
           /\ Judge(<< Cl(E.what, E.a.s = E.b.s /\ E.a.v # E.b.v) >>)

\* statistics of standardised Monte Carlo deviates: x: sequence of samples
\* (each a sequence of the same length), to be unit normal and independent
Mean(v) == FDiv(VSum(v), FOfInt(Len(v)))
TStats == /\ Is("Stats") /\ Step /\ Keep
          /\ S!Pure(S!Nothing)
          /\ LET n == FOfInt(Len(E.x[1]))
                 \* six standard errors
                 se(c) == FMul("6.0", FSqrt(FDiv(c, n)))
                 k == Len(E.x)
                 two(i, j) == Mean(VMap2(FMul, E.x[i], E.x[j]))
                 inside(v) == FDiv(FOfInt(Len(SelectSeq(v, LAMBDA t : FLt(FAbs(t), "1.0")))), n)
             IN Judge(<<
                  Cl("deviates have zero mean", \A i \in 1..k : FLt(FAbs(Mean(E.x[i])), se("1.0"))),
                  Cl("deviates have unit variance",
                     \A i \in 1..k : FLt(FAbs(FSub(two(i, i), "1.0")), se("2.0"))),
                  Cl("deviates are normal",
                     \A i \in 1..k : FLt(FAbs(FSub(inside(E.x[i]), "0.682689")), se("0.217"))),
                  Cl("deviates of different bands and objects are independent",
                     \A i, j \in 1..k : i < j => FLt(FAbs(two(i, j)), se("1.0"))),
                  Cl("successive deviates are independent",
                     \A i \in 1..k : LET w == Len(E.x[i]) - 1 IN
                        FLt(FAbs(Mean([t \in 1..w |-> FMul(E.x[i][t], E.x[i][t + 1])])), se("1.0"))) >>)

\* the driver process died or hung
TCrash == /\ Is("Crash") /\ Step /\ Keep /\ S!Pure(S!Nothing)
          /\ Judge(<< Cl("call returns", FALSE) >>)

\* results returned earlier are as they were when they were returned
TKept == /\ Is("Kept") /\ Step /\ Keep /\ S!Pure(S!Nothing)
         /\ Judge(<< Cl("results returned earlier stay as they are", E.changed = <<>>) >>)

\* an argument is a result the code did not return
TUnavail == /\ Is("Unavailable") /\ Step /\ Keep /\ S!Pure(S!Nothing)
            /\ Judge(<< Cl("result of an earlier call has the expected form", FALSE) >>)

TSkip == /\ l <= Len(Log) /\ Missing
         /\ Step /\ Keep /\ S!Pure(S!Nothing)
         /\ Judge(<<>>)          \* (that it was not made has been judged)

TDone == /\ l = Len(Log) + 1
         /\ l' = l + 1
         /\ ndJsonSerialize(OutFile, << [lines |-> Len(Log) - 1, judged |-> nj, nbad |-> Len(bad)] >> \o bad)
         /\ UNCHANGED <<disk, reg, seds, kcs, rsps, last, bad, memo, nj>>

TNext == \/ TWriteDat \/ TBadDat \/ TRmFile \/ TLoad \/ TCheckReg \/ TList
         \/ TNewSed \/ TSetZ \/ TSetInterp \/ TCheckSed \/ TInterp \/ TProject \/ TProjectBad
         \/ TNewFitter \/ TSetA \/ TCheckFit \/ TPlot \/ TKept
         \/ TNewRsp \/ TRspDat \/ TSaveRsp \/ TRspFits \/ TCheckRsp \/ TProjectRsp
         \/ TNewKc \/ TNewDefault \/ TCheckKc \/ TAmat \/ THold \/ TPokeT \/ TQuery
         \/ TSaveSed \/ TLoadSed \/ TSaveKc \/ TLoadKc \/ TRestart
         \/ TAmbient \/ TCosmo \/ TFunc \/ TM2F \/ TSame \/ TDiffer \/ TStats \/ TCrash \/ TUnavail \/ TSkip \/ TDone

TSpec == TInit /\ [][TNext]_tvars
TypeOK == l \in 2..(Len(Log) + 2)
============================================================================
