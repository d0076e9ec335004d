---------------------------- MODULE GenSession ----------------------------
(***************************************************************************)
(* Behaviours of the session model, written out for replay into the code.  *)
(* Exhaustive (breadth first, every history of length Depth) or, with      *)
(* -simulate, random.                                                      *)
(***************************************************************************)
EXTENDS MCSession, Json

CONSTANT Start       \* what exists at the beginning: "empty", "seds", "kcs"
VARIABLE hist
gvars == <<disk, reg, seds, kcs, rsps, last, answers, same, call, hist>>

GInit ==
  /\ disk = Disk0 /\ last = Nothing /\ answers = <<>>  /\ rsps = <<>> /\ same = TRUE /\ hist = <<>> /\ call = [a |-> "none"]
  /\ seds = IF Start = "empty" THEN <<>> ELSE [h \in {"s1", "s2"} |-> MakeSed(RestW(h), RestF(h), "P" \o h)]
  /\ IF Start # "kcs" THEN reg = <<>> /\ kcs = <<>>
     ELSE LET r == LoadAll(<<>>, <<"n1", "n2">>).r
              K(s, c) == LET f == Full(c, s) IN
                 [s |-> s, resp |-> c.resp, out |-> c.out, map |-> c.map,
                  imap |-> [i \in 1..Len(c.map) |-> IndexOf(c.resp, c.map[i])],
                  zg |-> f.zg, opt |-> f.opt,
                  A |-> BuildA(seds[s], r, c.resp, f.zg).A, Aout |-> BuildA(seds[s], r, c.out, f.zg).A]
          IN reg = r /\ kcs = ("k1" :> K("s1", C4) @@ "k2" :> K("s1", C3))
GNext == \E c \in Cand : Do(c) /\ call' = c /\ hist' = Append(hist, c)
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth => PrintT("BEH " \o ToJson(hist))
GBound == Len(hist) < Depth
============================================================================
