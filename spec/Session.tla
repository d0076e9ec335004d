------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The state of a process using kcorrect and of the files it works with,   *)
(* and the transitions of its public calls.                                *)
(*                                                                         *)
(* The physics (redshifting a spectrum, projecting it onto a bandpass) is  *)
(* a parameter: MCSession instantiates it with free symbolic terms and     *)
(* checks the invariants below exhaustively; Trace instantiates it with    *)
(* the arithmetic of Photometry and validates recorded executions of the   *)
(* real code, action by action.                                            *)
(*                                                                         *)
(* A call that raises is a transition too (last.t = "err"): some failing   *)
(* calls change state (responses loaded before the failure, templates      *)
(* returned to z = 0), and this is modelled as the code does it.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS ShW(_, _),      \* rest wavelengths, z  -> observed wavelengths
          ShF(_, _),      \* rest fluxes, z       -> observed fluxes
          Prj(_, _, _),   \* observed wavelengths, fluxes, band -> maggies
          Z0              \* redshift zero

VARIABLES
  disk,   \* path -> file content
  reg,    \* the response registry: name -> band
  seds,   \* handle -> SED / template set
  kcs,    \* handle -> fitter
  rsps,   \* handle -> bandpass object of the caller's own
  last    \* what the last call has to return

svars == <<disk, reg, seds, kcs, rsps, last>>

Ok(v)  == [t |-> "ok", v |-> v]
Err    == [t |-> "err"]
Nothing == [t |-> "none"]

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
InSeq(s, x)   == \E i \in 1..Len(s) : s[i] = x

Init0(d) ==
  /\ disk = d
  /\ reg = <<>> /\ seds = <<>> /\ kcs = <<>> /\ rsps = <<>>
  /\ last = Nothing

(***************************************************************************)
(* Files                                                                   *)
(***************************************************************************)
DatFile(b) == [t |-> "dat", b |-> b]
BadFile    == [t |-> "bad"]

WriteFile(p, c) ==
  /\ disk' = Upd(disk, p, c)
  /\ last' = Nothing
  /\ UNCHANGED <<reg, seds, kcs, rsps>>

RemoveFile(p) ==
  /\ disk' = Del(disk, p)
  /\ last' = Nothing
  /\ UNCHANGED <<reg, seds, kcs, rsps>>

(***************************************************************************)
(* Response registry.  A name stands for the path of its file.             *)
(***************************************************************************)
Loadable(n) == n \in DOMAIN disk /\ disk[n].t = "dat"

\* result of loading one name into registry r
LoadInto(r, n, reload) ==
  IF n \in DOMAIN r /\ ~reload THEN [ok |-> TRUE, r |-> r]
  ELSE IF Loadable(n) THEN [ok |-> TRUE, r |-> Upd(r, n, disk[n].b)]
  ELSE [ok |-> FALSE, r |-> r]

\* names are loaded in order until one fails
LoadAll(r0, ns) ==
  FoldLeft(LAMBDA a, n : IF a.ok THEN LoadInto(a.r, n, FALSE) ELSE a,
           [ok |-> TRUE, r |-> r0], ns)

Load(n, reload) ==
  LET a == LoadInto(reg, n, reload)
  IN /\ reg' = a.r
     /\ last' = IF a.ok THEN Ok(a.r[n]) ELSE Err
     /\ UNCHANGED <<disk, seds, kcs, rsps>>

(***************************************************************************)
(* Bandpass objects of the caller's own: made from arrays or read from a   *)
(* file, without the registry knowing.                                     *)
(***************************************************************************)
RspFile(b, ext) == [t |-> "rsp", b |-> b, ext |-> ext]

NewRsp(h, b) ==
  /\ rsps' = Upd(rsps, h, b)
  /\ last' = Ok(b)
  /\ UNCHANGED <<disk, reg, seds, kcs>>

\* A read into an object that is there already: of a file that is missing
\* leaves it as it was; of a file that cannot be understood leaves it in no
\* particular state, and it is not known any more.
FailRead(h, p) == rsps' = (IF p \in DOMAIN disk THEN Del(rsps, h) ELSE rsps) /\ last' = Err

\* from a .dat file (h may be an object already there: read again)
RspFromDat(h, p) ==
  /\ IF Loadable(p)
     THEN rsps' = Upd(rsps, h, disk[p].b) /\ last' = Ok(disk[p].b)
     ELSE FailRead(h, p)
  /\ UNCHANGED <<disk, reg, seds, kcs>>

\* ext: name of the extension of the file
SaveRsp(h, p, ext, clobber) ==
  /\ h \in DOMAIN rsps
  /\ IF ~clobber /\ p \in DOMAIN disk
     THEN disk' = disk /\ last' = Err
     ELSE disk' = Upd(disk, p, RspFile(rsps[h], ext)) /\ last' = Ok("saved")
  /\ UNCHANGED <<reg, seds, kcs, rsps>>

\* ext: name of the extension to read, or "1" (the first, whatever its name)
RspFromFits(h, p, ext) ==
  /\ IF p \in DOMAIN disk /\ disk[p].t = "rsp" /\ ext \in {"1", disk[p].ext}
     THEN rsps' = Upd(rsps, h, disk[p].b) /\ last' = Ok(disk[p].b)
     ELSE FailRead(h, p)
  /\ UNCHANGED <<disk, reg, seds, kcs>>

ProjectRsp(h, r) ==
  /\ h \in DOMAIN seds /\ r \in DOMAIN rsps
  /\ last' = Ok(Prj(seds[h].w, seds[h].f, rsps[r]))
  /\ UNCHANGED <<disk, reg, seds, kcs, rsps>>

(***************************************************************************)
(* Spectra                                                                 *)
(***************************************************************************)
Redshifted(s, z) == [s EXCEPT !.w = ShW(s.rw, z), !.f = ShF(s.rf, z), !.z = z]
MakeSed(rw, rf, props) ==
  [rw |-> rw, rf |-> rf, w |-> rw, f |-> rf, z |-> Z0, props |-> props]

NewSed(h, rw, rf, props) ==
  /\ seds' = Upd(seds, h, MakeSed(rw, rf, props))
  /\ last' = Nothing
  /\ UNCHANGED <<disk, reg, kcs, rsps>>

SetZ(h, z) ==
  /\ h \in DOMAIN seds
  /\ seds' = [seds EXCEPT ![h] = Redshifted(@, z)]
  /\ last' = Nothing
  /\ UNCHANGED <<disk, reg, kcs, rsps>>

\* projection of a spectrum set, at the redshift it is at, onto a loaded band
ProjectSed(h, n) ==
  /\ h \in DOMAIN seds /\ n \in DOMAIN reg
  /\ last' = Ok(Prj(seds[h].w, seds[h].f, reg[n]))
  /\ UNCHANGED <<disk, reg, seds, kcs, rsps>>

(***************************************************************************)
(* Fitters.  cfg: s (template handle), resp, out, map (sequences of names; *)
(* out and map default to resp), zg (redshift grid), opt (everything       *)
(* else: AB flag, kind of object, cosmology; opaque here).                 *)
(***************************************************************************)
\* loop over the grid as the code does it: shift the shared templates,
\* project them, and finally put them back at rest
BuildA(s0, r, names, zg) ==
  LET st == FoldLeft(LAMBDA a, z :
              LET s1 == Redshifted(a.s, z)
              IN [s |-> s1,
                  A |-> Append(a.A, [i \in 1..Len(names) |-> Prj(s1.w, s1.f, r[names[i]])])],
              [s |-> s0, A |-> <<>>], zg)
  IN [A |-> st.A, s |-> Redshifted(st.s, Z0)]

\* A construction that fails may have loaded some of the responses (fr) and
\* may leave the templates at any redshift (fz); anything else is untouched.
Unloaded(cfg) == {n \in ToSet(cfg.resp) \cup ToSet(cfg.out) : Loadable(n)} \ DOMAIN reg
LoadFails(cfg) ==
  \E n \in ToSet(cfg.resp) \cup ToSet(cfg.out) : n \notin DOMAIN reg /\ ~Loadable(n)
BadMap(cfg) ==
  \/ Len(cfg.map) # Len(cfg.out)
  \/ \E i \in 1..Len(cfg.map) : ~InSeq(cfg.resp, cfg.map[i])

NewKc(h, cfg, fr, fz) ==
  /\ cfg.s \in DOMAIN seds
  /\ IF LoadFails(cfg) \/ BadMap(cfg)
     THEN /\ reg' = [n \in DOMAIN reg \cup fr |-> IF n \in DOMAIN reg THEN reg[n] ELSE disk[n].b]
          /\ seds' = [seds EXCEPT ![cfg.s] = Redshifted(@, fz)]
          /\ last' = Err
          /\ UNCHANGED <<disk, kcs, rsps>>
     ELSE LET l1 == LoadAll(reg, cfg.resp)
              b1 == BuildA(seds[cfg.s], l1.r, cfg.resp, cfg.zg)
              own == cfg.out # cfg.resp
              l2 == IF own THEN LoadAll(l1.r, cfg.out) ELSE l1
              b2 == IF own THEN BuildA(b1.s, l2.r, cfg.out, cfg.zg) ELSE b1
          IN /\ reg' = l2.r
             /\ seds' = [seds EXCEPT ![cfg.s] = b2.s]
             /\ kcs' = Upd(kcs, h,
                  [s |-> cfg.s, resp |-> cfg.resp, out |-> cfg.out, map |-> cfg.map,
                   imap |-> [i \in 1..Len(cfg.map) |-> IndexOf(cfg.resp, cfg.map[i])],
                   zg |-> cfg.zg, opt |-> cfg.opt, A |-> b1.A, Aout |-> b2.A])
             /\ last' = Ok("built")
             /\ UNCHANGED <<disk, rsps>>

\* A plain fitter has no output bands of its own, and no matrix until it is
\* told to compute it.  It may be told again at any time.
NewFitter(h, cfg) ==
  /\ cfg.s \in DOMAIN seds
  /\ kcs' = Upd(kcs, h,
       [s |-> cfg.s, resp |-> cfg.resp, out |-> cfg.resp, map |-> cfg.resp,
        imap |-> [i \in 1..Len(cfg.resp) |-> IndexOf(cfg.resp, cfg.resp[i])],
        zg |-> cfg.zg, opt |-> cfg.opt, A |-> <<>>, Aout |-> <<>>])
  /\ last' = Ok("made")
  /\ UNCHANGED <<disk, reg, seds, rsps>>

SetA(h, fr, fz) ==
  /\ h \in DOMAIN kcs
  /\ LET k == kcs[h]
         cfg == [resp |-> k.resp, out |-> k.resp]
     IN IF LoadFails(cfg)
        THEN /\ reg' = [n \in DOMAIN reg \cup fr |-> IF n \in DOMAIN reg THEN reg[n] ELSE disk[n].b]
             /\ seds' = [seds EXCEPT ![k.s] = Redshifted(@, fz)]
             /\ last' = Err
             /\ UNCHANGED <<disk, kcs, rsps>>
        ELSE LET l1 == LoadAll(reg, k.resp)
                 b1 == BuildA(seds[k.s], l1.r, k.resp, k.zg)
             IN /\ reg' = l1.r
                /\ seds' = [seds EXCEPT ![k.s] = b1.s]
                /\ kcs' = [kcs EXCEPT ![h].A = b1.A, ![h].Aout = b1.A]
                /\ last' = Ok("computed")
                /\ UNCHANGED <<disk, rsps>>

\* the part of a fitter that answers depend on
Config(k) == [resp |-> k.resp, out |-> k.out, map |-> k.map, imap |-> k.imap,
              zg |-> k.zg, opt |-> k.opt, A |-> k.A, Aout |-> k.Aout]

\* Any fit, reconstruction, K-correction, absolute magnitude or derived
\* quantity: its answer is a function of the fitter, its templates'
\* properties, the arguments and (solar magnitudes of derived quantities
\* only, which are loaded if need be) the registry.
Query(h, q, derived) ==
  /\ h \in DOMAIN kcs
  /\ LET l == IF derived THEN LoadAll(reg, kcs[h].out) ELSE [ok |-> TRUE, r |-> reg]
     IN /\ reg' = l.r
        /\ last' = IF l.ok
                   THEN Ok([kc |-> Config(kcs[h]), props |-> seds[kcs[h].s].props,
                            bands |-> [i \in 1..Len(kcs[h].out) |->
                                         IF derived THEN l.r[kcs[h].out[i]] ELSE "unused"],
                            q |-> q])
                   ELSE Err
  /\ UNCHANGED <<disk, seds, kcs, rsps>>

\* A matrix the caller keeps is as it was when it was taken, whatever
\* happens to the fitter: h stands for what k was.
Hold(k, h) ==
  /\ k \in DOMAIN kcs
  /\ kcs' = Upd(kcs, h, kcs[k])
  /\ last' = Nothing
  /\ UNCHANGED <<disk, reg, seds, rsps>>

\* the caller changes the properties of one of its template sets
SetProps(h, props) ==
  /\ h \in DOMAIN seds
  /\ seds' = [seds EXCEPT ![h].props = props]
  /\ last' = Nothing
  /\ UNCHANGED <<disk, reg, kcs, rsps>>

(***************************************************************************)
(* Saving and restoring                                                    *)
(***************************************************************************)
SedFile(s) == [t |-> "sed", rw |-> s.rw, rf |-> s.rf, props |-> s.props]
KcFile(k, s) == [t |-> "kc", rw |-> s.rw, rf |-> s.rf, props |-> s.props, c |-> Config(k)]

SaveSed(h, p, clobber) ==
  /\ h \in DOMAIN seds
  /\ IF ~clobber /\ p \in DOMAIN disk
     THEN disk' = disk /\ last' = Err
     ELSE disk' = Upd(disk, p, SedFile(seds[h])) /\ last' = Ok("saved")
  /\ UNCHANGED <<reg, seds, kcs, rsps>>

\* a saved fitter is also readable as a template set
LoadSed(h, p) ==
  /\ IF p \in DOMAIN disk /\ disk[p].t \in {"sed", "kc"}
     THEN /\ seds' = Upd(seds, h, MakeSed(disk[p].rw, disk[p].rf, disk[p].props))
          /\ last' = Ok("loaded")
     ELSE UNCHANGED seds /\ last' = Err
  /\ UNCHANGED <<disk, reg, kcs, rsps>>

SaveKc(h, p) ==
  /\ h \in DOMAIN kcs
  /\ disk' = Upd(disk, p, KcFile(kcs[h], seds[kcs[h].s]))
  /\ last' = Ok("saved")
  /\ UNCHANGED <<reg, seds, kcs, rsps>>

\* h: new fitter, s: handle of its own new template set, opt: options of the
\* restored object (its AB flag is the saved one; its class is the caller's)
LoadKc(h, s, p, opt) ==
  /\ IF p \in DOMAIN disk /\ disk[p].t = "kc"
     THEN LET c == disk[p].c
          IN /\ seds' = Upd(seds, s, MakeSed(disk[p].rw, disk[p].rf, disk[p].props))
             /\ kcs' = Upd(kcs, h,
                  [s |-> s, resp |-> c.resp, out |-> c.out, map |-> c.map,
                   imap |-> c.imap, zg |-> c.zg, opt |-> opt, A |-> c.A, Aout |-> c.Aout])
             /\ last' = Ok("loaded")
     ELSE UNCHANGED <<seds, kcs>> /\ last' = Err
  /\ UNCHANGED <<disk, reg, rsps>>

\* the process ends and a new one starts
Restart ==
  /\ reg' = <<>> /\ seds' = <<>> /\ kcs' = <<>> /\ rsps' = <<>>
  /\ last' = Nothing
  /\ UNCHANGED disk

\* a stateless call
Pure(v) ==
  /\ last' = v
  /\ UNCHANGED <<disk, reg, seds, kcs, rsps>>

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)
\* C02: a spectrum set always shows its rest frame shifted to its redshift
ObservedFrame ==
  \A h \in DOMAIN seds :
    \/ seds[h].w = ShW(seds[h].rw, seds[h].z) /\ seds[h].f = ShF(seds[h].rf, seds[h].z)
    \/ seds[h].z = Z0 /\ seds[h].w = seds[h].rw /\ seds[h].f = seds[h].rf

\* C03: matrices are projections of rest-frame spectra shifted once
PureRow(rw, rf, z, bands) ==
  [i \in 1..Len(bands) |-> Prj(ShW(rw, z), ShF(rf, z), bands[i])]

============================================================================
