---------------------------- MODULE Photometry ----------------------------
(***************************************************************************)
(* Spectra through bandpasses.  A bandpass is [w |-> grid, p |-> response] *)
(* with increasing grid; a spectrum set is a grid and a sequence of flux   *)
(* rows.                                                                   *)
(***************************************************************************)
EXTENDS Vec

(* 3631 Jy as flux per Angstrom: 3631e-23 erg/s/cm2/Hz * c / lambda^2 *)
ABFlux(w) == FDiv(FMul("3.631e-2", "2.99792"), FMul(w, w))

ZP1(z) == FAdd("1.0", z)
ShiftWave(w, z) == TLCEval([i \in 1..Len(w) |-> FMul(w[i], ZP1(z))])
ShiftFlux(f, z) == TLCEval([j \in 1..Len(f) |->
                      TLCEval([i \in 1..Len(f[j]) |-> FDiv(f[j][i], ZP1(z))])])

(* Spectrum samples used in the integral: those inside the bandpass and one
   neighbour on each side; none if the spectrum only straddles the band. *)
InBand(w, b) == {i \in 1..Len(w) : FLe(b.w[1], w[i]) /\ FLe(w[i], b.w[Len(b.w)])}   \* an interval

\* The samples of a spectrum may be given in decreasing order
Falling(w) == Len(w) > 1 /\ FLt(w[Len(w)], w[1])
Upward(v) == TLCEval([i \in 1..Len(v) |-> v[Len(v) + 1 - i]])

Overlap(w, b) == ~(FLt(b.w[Len(b.w)], w[1]) \/ FLt(w[Len(w)], b.w[1]))

IntGrid(w, b) ==
  LET K  == InBand(w, b)
      lo == CHOOSE i \in K : i - 1 \notin K
      hi == CHOOSE i \in K : i + 1 \notin K
  IN IF K = {} THEN b.w
     ELSE Merge(SubSeq(w, IF lo = 1 THEN 1 ELSE lo - 1, IF hi = Len(w) THEN hi ELSE hi + 1), b.w)

ProjectUp(w, f, b) ==
  IF ~Overlap(w, b) THEN [j \in 1..Len(f) |-> "0.0"]
  ELSE LET g  == TLCEval(IntGrid(w, b))
           rw == TLCEval(VMap2(FMul, Spline(b.w, b.p, g), g))
           dn == Trapz(g, [i \in 1..Len(g) |-> FMul(ABFlux(g[i]), rw[i])])
       IN TLCEval([j \in 1..Len(f) |->
             FDiv(Trapz(g, VMap2(FMul, Spline(w, f[j], g), rw)), dn)])

Project(w, f, b) ==
  IF Falling(w) THEN ProjectUp(Upward(w), [j \in 1..Len(f) |-> Upward(f[j])], b) ELSE ProjectUp(w, f, b)

SplineOf(w, f, x) == IF Falling(w) THEN Spline(Upward(w), Upward(f), x) ELSE Spline(w, f, x)

(* effective wavelength: exp of the response/lambda weighted mean ln lambda *)
LambdaEff(b) ==
  LET wt == TLCEval([i \in 1..Len(b.w) |-> FDiv(b.p[i], b.w[i])])
  IN FExp(FDiv(Trapz(b.w, [i \in 1..Len(b.w) |-> FMul(FLn(b.w[i]), wt[i])]),
               Trapz(b.w, wt)))
===========================================================================
