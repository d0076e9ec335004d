------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* The input space of each family of calls, as finite tables of abstract   *)
(* cases; the harness draws numbers for each case and records the call.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}

\* C07: one argument of a call distorted, or all of them alike ("*"), or none
ArgsOf(m) ==
  CASE m \in {"recon", "recon_out", "kcor"} -> {"coeffs"}
    [] m = "derived" -> {"coeffs", "distance"}
    [] m \in {"fit", "fitmc"} -> {"maggies", "ivar", "*"}
    [] m = "absmag" -> {"maggies", "ivar", "coeffs", "distance", "*"}
    [] m = "absmag_mc" -> {"maggies_mc", "ivar", "coeffs_mc", "distance", "*"}
    [] m = "derived_mc" -> {"coeffs_mc", "distance"}
Methods == {"recon", "recon_out", "kcor", "derived", "fit", "fitmc", "absmag", "absmag_mc", "derived_mc"}
\* redshifts: none given, one, of one or three objects, or of too many axes
ZForms == {"none", "scalar", "a1", "a3", "2d", "col", "row", "1x1", "3d"}
Hows == {"dim-", "dim+", "n-", "n+", "len-", "len+", "T"}
Shapes ==
  UNION {{[m |-> m, z |-> z, f |-> "", how |-> "ok"] : z \in ZForms} : m \in Methods}
  \cup UNION {{c \in {[m |-> m, z |-> z, f |-> f, how |-> h] : z \in {"scalar", "a1", "a3"}, f \in ArgsOf(m), h \in Hows} :
                 /\ (c.f = "distance" => c.how \in {"dim+", "n-", "n+"} \/ (c.how = "dim-" /\ c.z # "scalar"))
                 /\ (c.m \in {"absmag_mc", "derived_mc"} => c.how # "T")
                 /\ (c.z = "scalar" => c.how \notin {"n-", "n+", "T"})} : m \in Methods}

\* Batches whose objects are nearly alike: what distinguishes them
Kin == {[kind |-> k, q |-> q, n |-> n] :
          k \in {"same z", "near z", "only z", "only distance", "ivars permuted", "maggies permuted", "coefficients permuted",
                 "scaled", "grid", "ascending", "descending", "flat", "ends", "one zero", "one masked", "one sign", "all equal",
                 "last differs", "extreme", "neighbours"},
          q \in {"fit", "fitmc", "recon", "recon_out", "kcor", "absmag", "derived"}, n \in {2, 5}}

\* C01: how many samples of the spectrum lie before, in and beyond the band
Edges == {[left |-> l, in |-> i, right |-> r, ends |-> e] :
            l \in 0..2, i \in 0..4, r \in 0..2, e \in {"closed", "open", "low", "high"}}

\* C10, C11, C12, C14: options and data
Opts ==
  {[z |-> z, rec |-> r, lim |-> l, k |-> k, dist |-> d, bs |-> b, data |-> x] :
     z \in {"scalar", "a1", "a3"}, r, l, k, d \in BOOLEAN, b \in {"0", "+", "-"},
     x \in {"normal", "masked", "zerom", "negm", "zeroc", "mixed"}}

\* C08, C09, C12
Kcor ==
  {[z |-> z, bs |-> b, data |-> x, zz |-> w] :
     z \in {"scalar", "a1", "a3"}, b \in {"0", "+", "-", "z"},
     x \in {"normal", "zeroc", "mixed"}, w \in {"in", "top", "bottom", "above", "below", "one-out"}}

\* C24: output bands (1..3 are inputs, 4 and 5 are not) and mappings
Maps ==
  UNION {{[out |-> o, map |-> m, dout |-> FALSE, dmap |-> FALSE] : o \in [1..n -> 1..5], m \in [1..n -> 1..3]} : n \in 1..3}
BadMaps ==
  {[out |-> o, map |-> m, dout |-> FALSE, dmap |-> FALSE] :
      o \in Seqs({1, 4}, 3), m \in Seqs({1, 3}, 3)} \* kept below if lengths differ
  \cup {[out |-> o, map |-> m, dout |-> FALSE, dmap |-> FALSE] : o \in [1..2 -> {2, 4}], m \in [1..2 -> {1, 4}]}
  \cup {[out |-> <<>>, map |-> m, dout |-> TRUE, dmap |-> FALSE] : m \in {<<1>>, <<1, 2>>, <<3, 2, 1>>, <<1, 1, 1>>, <<1, 2, 4>>, <<1, 2, 3, 1>>}}
  \cup {[out |-> o, map |-> <<>>, dout |-> FALSE, dmap |-> TRUE] : o \in {<<1>>, <<4, 5>>, <<4, 5, 1>>, <<3, 2, 1>>, <<4, 4, 4>>, <<1, 2, 3, 4>>}}
IsBad(c) == Len(c.out) # Len(c.map) \/ \E i \in 1..Len(c.map) : c.map[i] > 3

\* C05: masks of four bands, and objects in, below and above the range
Masks == {[mask |-> m, pos |-> p, mc |-> k] :
            m \in [1..4 -> BOOLEAN], p \in {<<"s", "in">>, <<"s", "lo">>, <<"s", "hi">>} \cup
              {<<"a">> \o q : q \in Seqs({"in", "lo", "hi"}, 3)}, k \in {0, 2}}

\* C21
Floors == {[m |-> m, iv |-> i, fl |-> f, dim |-> d, form |-> g] :
            m \in {"+", "-", "tiny"}, i \in {"zero", "low", "high", "equal"}, f \in {"zero", "small", "big"},
            d \in {"vec", "row", "arr"}, g \in {"same", "mix"}}

\* C20
Asinh == {[m |-> m, err |-> e, ext |-> x, dim |-> d, fit |-> f] :
            m \in {"bright", "faint", "zero", "negative", "mix"}, e \in BOOLEAN, x \in {"none", "zero", "some"},
            d \in {"vec", "row", "arr"}, f \in BOOLEAN}

\* C19
AB == {[fn |-> f, ab |-> a, iv |-> i, dim |-> d, data |-> x] :
         f \in {"sdss_ab", "sdss_ab_fix", "to_ab sdss", "to_ab gst", "to_ab base",
                "fit sdss", "fit gst", "fit base", "absmag sdss", "absmag gst", "absmag base",
                "mc sdss", "mc gst"},
         a \in BOOLEAN, i \in BOOLEAN, d \in {"vec", "row", "arr"}, x \in {"normal", "masked"}}

\* C01
Proj == {[band |-> b, nb |-> n, grid |-> g, k |-> k, via |-> v] :
          b \in {"hump", "box", "double", "open"}, n \in {5, 9, 40},
          g \in {"fine", "coarse", "straddle", "left", "right", "inside", "offleft", "offright", "same"},
          k \in {1, 3}, v \in {"sed", "sedz", "raw", "rawflat"}}

\* C17
Descr == {[shape |-> s, order |-> o, scale |-> c, at |-> a, src |-> r, n |-> n] :
            s \in {"hump", "box", "double", "cutleft", "cutright", "flat"}, o \in {"up", "down", "shuffled"},
            c \in {"1", "big", "small"}, a \in {"uv", "optical", "ir", "beyond"},
            r \in {"arrays", "dat", "fits", "fitsraw"}, n \in {6, 15, 40}}

\* C22
M2F == {[k |-> k, rep |-> r, dim |-> d, iv |-> i, pre |-> p] :
          k \in {1, 2, 3}, r \in BOOLEAN, d \in {"vec", "row", "arr"}, i \in BOOLEAN, p \in BOOLEAN}

\* C26
Plots == {[n |-> n, kind |-> k, data |-> d, z |-> z, indx |-> i, lim |-> l] :
            n \in {"one", "many"}, k \in {"arrays", "template"}, d \in {"positive", "zeros", "negative"}, z \in BOOLEAN,
            i \in {"all", "scalar", "array", "repeat"}, l \in {"none", "wide", "part", "left"}}

Table(f) ==
  CASE f = "shapes" -> Shapes
    [] f = "kin" -> Kin
    [] f = "edges" -> Edges
    [] f = "opts" -> Opts
    [] f = "kcor" -> Kcor
    [] f = "maps" -> Maps
    [] f = "badmaps" -> {c \in BadMaps : c.dout \/ c.dmap \/ IsBad(c)}
    [] f = "masks" -> Masks
    [] f = "floors" -> Floors
    [] f = "asinh" -> Asinh
    [] f = "ab" -> AB
    [] f = "proj" -> Proj
    [] f = "descr" -> Descr
    [] f = "m2f" -> M2F
    [] f = "plots" -> Plots

Write == ndJsonSerialize(IOEnv.CASEFILE, SetToSeq(Table(IOEnv.FAMILY)))
ASSUME Write
============================================================================
