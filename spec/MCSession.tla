----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Exhaustive check of the session model: spectra and projections are free *)
(* terms, so the properties hold for any physics.  Handles are fresh (a    *)
(* Python variable bound to a new object is a new handle).                 *)
(***************************************************************************)
EXTENDS Session

CONSTANTS Acts,      \* names of the actions to explore
          Names, Contents, SedHs, KcHs, Paths, Zs, Depth, Cfgs

VARIABLES answers,   \* (fitter, question) -> first reply in this process
          same,      \* no reply has differed from the first
          call       \* the call that led here (not part of the view)
mvars == <<disk, reg, seds, kcs, rsps, last, answers, same>>

SymShW(w, z) == IF z = 0 THEN w ELSE <<"w", w, z>>
SymShF(f, z) == IF z = 0 THEN f ELSE <<"f", f, z>>
SymPrj(w, f, b) == <<"p", w, f, b>>

\* two spectrum sets with different rest frames
RestW(h) == "W" \o h
RestF(h) == "F" \o h

C1 == [resp |-> <<"n1">>, out |-> <<"n1">>, map |-> <<"n1">>]
C2 == [resp |-> <<"n1", "n2">>, out |-> <<"n1", "n2">>, map |-> <<"n1", "n2">>]
C3 == [resp |-> <<"n1">>, out |-> <<"n2">>, map |-> <<"n1">>]
C4 == [resp |-> <<"n1", "n2">>, out |-> <<"n2", "n2">>, map |-> <<"n2", "n1">>]
C5 == [resp |-> <<"n1">>, out |-> <<"n1">>, map |-> <<"n2">>]        \* not an input
C6 == [resp |-> <<"n1", "n2">>, out |-> <<"n1">>, map |-> <<"n1", "n2">>]  \* wrong length
CfgSmall == {C1, C4}
CfgOne == {C1}
CfgAll == {C1, C2, C3, C4, C5, C6}

Full(c, s) == [s |-> s, resp |-> c.resp, out |-> c.out, map |-> c.map, zg |-> <<0, 1>>, opt |-> "o"]

Qs == {[k |-> "kcor"], [k |-> "derived"]}

KeepAns == UNCHANGED <<answers, same>>
\* the reply to a question is the first one (derived quantities: as long as
\* the band is not reloaded from a changed file)
NoteAnswer(h, q) ==
  LET new == last'.t = "ok" /\ <<h, q>> \notin DOMAIN answers
      Cut(a) == [a EXCEPT !.bands = <<>>]
  IN /\ answers' = IF new THEN Upd(answers, <<h, q>>, Cut(last'.v)) ELSE answers
     /\ same' = (same /\ (last'.t = "ok" => answers'[<<h, q>>] = Cut(last'.v)))

Fresh(all, used) == all \ used
RspHs == {"r1", "r2"}
\* plain fitters
Plain == {h \in DOMAIN kcs : kcs[h].opt = "plain"}
\* calls that can be made now
Cand ==
  {c \in
    {[a |-> "WriteFile", p |-> p, c |-> c] : p \in Names, c \in Contents}
    \cup {[a |-> "RemoveFile", p |-> p] : p \in Names \cap DOMAIN disk}
    \cup {[a |-> "Load", n |-> n, r |-> r] : n \in Names, r \in BOOLEAN}
    \cup {[a |-> "NewSed", s |-> h] : h \in Fresh(SedHs, DOMAIN seds)}
    \cup {[a |-> "SetZ", s |-> h, z |-> z] : h \in DOMAIN seds, z \in Zs}
    \cup {[a |-> "ProjectSed", s |-> h, n |-> n] : h \in DOMAIN seds, n \in DOMAIN reg}
    \cup {[a |-> "NewKc", k |-> h, s |-> s, c |-> c] :
              h \in Fresh(KcHs, DOMAIN kcs), s \in DOMAIN seds, c \in Cfgs}
    \cup {[a |-> "NewFit", k |-> h, s |-> s, c |-> c] :
              h \in Fresh(KcHs, DOMAIN kcs), s \in DOMAIN seds, c \in Cfgs}
    \cup {[a |-> "SetA", k |-> h] : h \in Plain}
    \cup {[a |-> "Query", k |-> h, q |-> q] : h \in {h \in DOMAIN kcs : kcs[h].A # <<>>}, q \in Qs}
    \cup {[a |-> "SaveSed", s |-> h, p |-> p, b |-> b] : h \in DOMAIN seds, p \in Paths, b \in BOOLEAN}
    \cup {[a |-> "LoadSed", s |-> h, p |-> p] : h \in Fresh(SedHs, DOMAIN seds), p \in Paths}
    \cup {[a |-> "SaveKc", k |-> h, p |-> p] : h \in DOMAIN kcs \ Plain, p \in Paths}
    \cup {[a |-> "LoadKc", k |-> h, s |-> s, p |-> p] :
              h \in Fresh(KcHs, DOMAIN kcs), s \in Fresh(SedHs, DOMAIN seds), p \in Paths}
    \cup {[a |-> "NewRsp", r |-> h] : h \in Fresh(RspHs, DOMAIN rsps)}
    \cup {[a |-> "RspDat", r |-> h, n |-> n] : h \in RspHs, n \in Names}
    \cup {[a |-> "SaveRsp", r |-> h, p |-> p, x |-> x, b |-> b] :
              h \in DOMAIN rsps, p \in Paths, x \in {"FLUX", "X"}, b \in BOOLEAN}
    \cup {[a |-> "RspFits", r |-> h, p |-> p, x |-> x] : h \in RspHs, p \in Paths, x \in {"1", "X"}}
    \cup {[a |-> "ProjectRsp", s |-> h, r |-> r] : h \in DOMAIN seds, r \in DOMAIN rsps}
    \cup {[a |-> "Restart"]} : c.a \in Acts}

Do(c) ==
  CASE c.a = "WriteFile"  -> WriteFile(c.p, IF c.c = "bad" THEN BadFile ELSE DatFile(c.c)) /\ KeepAns
    [] c.a = "RemoveFile" -> RemoveFile(c.p) /\ KeepAns
    [] c.a = "Load"       -> Load(c.n, c.r) /\ KeepAns
    [] c.a = "NewSed"     -> NewSed(c.s, RestW(c.s), RestF(c.s), "P" \o c.s) /\ KeepAns
    [] c.a = "SetZ"       -> SetZ(c.s, c.z) /\ KeepAns
    [] c.a = "ProjectSed" -> ProjectSed(c.s, c.n) /\ KeepAns
    [] c.a = "NewKc"      ->
          LET cfg == Full(c.c, c.s)  fails == LoadFails(cfg) \/ BadMap(cfg)
          IN \E fr \in (IF fails THEN SUBSET Unloaded(cfg) ELSE {{}}) :
             \E fz \in (IF fails THEN {seds[c.s].z, 0, 1} ELSE {0}) :
                NewKc(c.k, cfg, fr, fz) /\ KeepAns
    [] c.a = "NewFit"     -> NewFitter(c.k, [Full(c.c, c.s) EXCEPT !.opt = "plain"]) /\ KeepAns
    [] c.a = "SetA"       ->
          LET fails == LoadFails([resp |-> kcs[c.k].resp, out |-> kcs[c.k].resp])
          IN \E fr \in (IF fails THEN SUBSET Unloaded([resp |-> kcs[c.k].resp, out |-> kcs[c.k].resp]) ELSE {{}}) :
             \E fz \in (IF fails THEN {seds[kcs[c.k].s].z, 0, 1} ELSE {0}) :
               /\ SetA(c.k, fr, fz)
               /\ answers' = IF fails THEN answers ELSE [x \in {x \in DOMAIN answers : x[1] # c.k} |-> answers[x]]
               /\ UNCHANGED same
    [] c.a = "Query"      -> Query(c.k, c.q, c.q.k = "derived") /\ NoteAnswer(c.k, c.q)
    [] c.a = "SaveSed"    -> SaveSed(c.s, c.p, c.b) /\ KeepAns
    [] c.a = "LoadSed"    -> LoadSed(c.s, c.p) /\ KeepAns
    [] c.a = "SaveKc"     -> SaveKc(c.k, c.p) /\ KeepAns
    [] c.a = "LoadKc"     -> LoadKc(c.k, c.s, c.p, "o") /\ KeepAns
    [] c.a = "NewRsp"     -> NewRsp(c.r, "R" \o c.r) /\ KeepAns
    [] c.a = "RspDat"     -> RspFromDat(c.r, c.n) /\ KeepAns
    [] c.a = "SaveRsp"    -> SaveRsp(c.r, c.p, c.x, c.b) /\ KeepAns
    [] c.a = "RspFits"    -> RspFromFits(c.r, c.p, c.x) /\ KeepAns
    [] c.a = "ProjectRsp" -> ProjectRsp(c.s, c.r) /\ KeepAns
    [] c.a = "Restart"    -> Restart /\ answers' = <<>> /\ UNCHANGED same

MNext == \E c \in Cand : Do(c) /\ call' = c

Disk0 == "n1" :> DatFile("B1") @@ "n2" :> DatFile("B2")
Init1 == Init0(Disk0) /\ answers = <<>> /\ same = TRUE /\ call = [a |-> "none"]
MSpec == Init1 /\ [][MNext]_<<mvars, call>>
Bound == TLCGet("level") < Depth

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* C02, C03: the frames shown are the rest frame shifted once, whatever happened
InvFrames == ObservedFrame
\* C02: rest frames, C23: templates' properties never change while an object lives
RestFixed ==
  [][\A h \in DOMAIN seds \cap DOMAIN seds' :
       /\ seds'[h].rw = seds[h].rw /\ seds'[h].rf = seds[h].rf /\ seds'[h].props = seds[h].props]_mvars

\* C03: a fitter's matrices are projections of the rest frame shifted once
\* onto the bands registered when it was made; the templates are left at rest
BuiltRight ==
  [][\A h \in DOMAIN kcs' \ DOMAIN kcs :
       last'.v = "built" =>
         LET k == kcs'[h]  s == seds[k.s]
             M(ns) == [i \in 1..Len(k.zg) |->
                         PureRow(s.rw, s.rf, k.zg[i], [j \in 1..Len(ns) |-> reg'[ns[j]]])]
         IN /\ k.A = M(k.resp) /\ k.Aout = M(k.out)
            /\ seds'[k.s].z = 0]_mvars
\* C27: so is a matrix computed on request, from what is registered then, and
\* nothing else changes
ComputedRight ==
  [][call'.a = "SetA" /\ last'.t = "ok" =>
       LET h == call'.k  k == kcs'[h]  s == seds[k.s]
       IN /\ k.A = [i \in 1..Len(k.zg) |->
                       PureRow(s.rw, s.rf, k.zg[i], [j \in 1..Len(k.resp) |-> reg'[k.resp[j]]])]
          /\ k = [kcs[h] EXCEPT !.A = k.A, !.Aout = k.A]
          /\ seds'[k.s].z = 0]_mvars
\* C03, C23: nothing but its construction changes a fitter
FittersFixed ==
  [][\A h \in DOMAIN kcs \cap DOMAIN kcs' :
       kcs'[h] = kcs[h] \/ (call'.a = "SetA" /\ call'.k = h /\ last'.t = "ok")]_mvars

\* C24: each output band is mapped to the input band named
InvMapped ==
  \A h \in DOMAIN kcs : LET k == kcs[h] IN
     /\ Len(k.imap) = Len(k.out)
     /\ \A i \in 1..Len(k.out) : k.resp[k.imap[i]] = k.map[i]

\* C15: a restored fitter is the saved one, and saves to the same file
Restored ==
  [][\A h \in DOMAIN kcs' \ DOMAIN kcs :
       last'.v = "loaded" =>
         \E p \in DOMAIN disk : disk[p].t = "kc" /\ KcFile(kcs'[h], seds'[kcs'[h].s]) = disk[p]]_mvars
\* C16: a saved set restores to its rest frame, whatever redshift it was at
SedRestored ==
  [][\A h \in DOMAIN seds' \ DOMAIN seds :
       last'.t = "ok" =>
         \E p \in DOMAIN disk : /\ disk[p].t \in {"sed", "kc"}
                                /\ seds'[h] = MakeSed(disk[p].rw, disk[p].rf, disk[p].props)]_mvars
\* C16: what is in a saved file is a rest frame
InvFilesAtRest ==
  \A p \in DOMAIN disk : disk[p].t \in {"sed", "kc"} => \E h \in SedHs : disk[p].rw = RestW(h) /\ disk[p].rf = RestF(h)

\* C23: the same question has the same answer as long as the process lives
InvSame == same

\* C18 
Registry1 ==
  [][\A n \in DOMAIN reg : \/ reg' = <<>>        \* Restart
                           \/ n \in DOMAIN reg' /\ (reg'[n] # reg[n] => Loadable(n) /\ reg'[n] = disk[n].b)]_mvars
Registry2 ==
  [][\A n \in DOMAIN reg' : n \notin DOMAIN reg => Loadable(n) /\ reg'[n] = disk[n].b]_mvars
Failures == [][last'.t = "err" => kcs' = kcs /\ disk' = disk]_mvars
\* a changed file is seen only by an explicit reload
Registry3 ==
  [][\A n \in DOMAIN reg \cap DOMAIN reg' :
       reg'[n] # reg[n] => call'.a = "Load" /\ call'.n = n /\ call'.r]_mvars
\* C18: a reload shows the file as it is, or fails
Reloads == [][call'.a = "Load" /\ call'.r => IF Loadable(call'.n) THEN reg'[call'.n] = disk[call'.n].b
                                             ELSE last'.t = "err" /\ reg' = reg]_mvars
\* C16: a write without clobbering never changes an existing file
NoClobber == [][call'.a = "SaveSed" /\ ~call'.b /\ call'.p \in DOMAIN disk => disk' = disk /\ last'.t = "err"]_mvars
\* a write that is not refused leaves what was asked for
Written == [][/\ (call'.a = "SaveSed" /\ last'.t = "ok" => call'.p \in DOMAIN disk' /\ disk'[call'.p] = SedFile(seds[call'.s]))
              /\ (call'.a = "SaveKc" => call'.p \in DOMAIN disk' /\ disk'[call'.p] = KcFile(kcs[call'.k], seds[kcs[call'.k].s]))]_mvars
\* C28: a saved bandpass restores to the same curve; a refused write or a
\* failed read changes nothing; the registry never hears of it
RspRestored ==
  [][/\ (call'.a = "RspFits" /\ last'.t = "ok" =>
           \E x \in {"FLUX", "X"} : disk[call'.p] = RspFile(rsps'[call'.r], x) /\ call'.x \in {"1", x})
     /\ (call'.a = "RspDat" /\ last'.t = "ok" => disk[call'.n] = DatFile(rsps'[call'.r]))
     /\ (call'.a = "SaveRsp" => IF ~call'.b /\ call'.p \in DOMAIN disk THEN disk' = disk /\ last'.t = "err"
                                 ELSE disk'[call'.p] = RspFile(rsps[call'.r], call'.x))
     /\ (call'.a \in {"NewRsp", "RspDat", "SaveRsp", "RspFits", "ProjectRsp"} => reg' = reg)
     /\ (call'.a \in {"RspDat", "RspFits"} /\ last'.t = "err" =>
           \A h \in DOMAIN rsps : h # call'.r \/ (call'.a = "RspDat" /\ call'.n \notin DOMAIN disk) =>
              h \in DOMAIN rsps' /\ rsps'[h] = rsps[h])]_mvars
\* C23: each part of the state is changed only by the calls that are to change it
Frames ==
  [][LET a == call'.a IN
     /\ disk' # disk => a \in {"WriteFile", "RemoveFile", "SaveSed", "SaveKc", "SaveRsp"}
     /\ \A h \in DOMAIN rsps : \/ h \in DOMAIN rsps' /\ rsps'[h] = rsps[h]
                               \/ a = "Restart"
                               \/ a \in {"RspDat", "RspFits"} /\ call'.r = h
     /\ reg' # reg => a \in {"Load", "NewKc", "SetA", "Query", "Restart"}
     /\ (\E h \in DOMAIN seds \cap DOMAIN seds' : seds'[h].z # seds[h].z) =>
           \/ a = "SetZ" /\ \A h \in DOMAIN seds : h # call'.s => seds'[h] = seds[h]
           \/ a = "NewKc" /\ \A h \in DOMAIN seds : h # call'.s => seds'[h] = seds[h]
           \/ a = "SetA" /\ \A h \in DOMAIN seds : h # kcs[call'.k].s => seds'[h] = seds[h]
     /\ kcs' # kcs => a \in {"NewKc", "NewFit", "SetA", "LoadKc", "Restart"}]_mvars
============================================================================
