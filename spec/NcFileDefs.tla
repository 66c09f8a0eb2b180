----------------------------- MODULE NcFileDefs -----------------------------
(***************************************************************************)
(* The contents a multiplier file must have.  What is saved (s): name, lat *)
(* and lon (sequences of the bits of the coordinates), v (rows of the bits *)
(* of the single-precision values, Missing for a missing cell), dir, and   *)
(* cfg, the settings of the run (<<section, option, value>>).  What is in  *)
(* a file (g): dims, vars (the names of its variables), lat, lon, v and    *)
(* attrs, pairs of a name and a value.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Missing == -2000000001
Range(s) == {s[i] : i \in DOMAIN s}

LongName == [Mz |-> "terrain", Ms |-> "shielding", Mt |-> "topographic"]
SameGrid(s, g) == g.lat = s.lat /\ g.lon = s.lon
SameValues(s, g) == g.v = s.v
UnderItsName(s, g) == s.name \in Range(g.vars)
Recorded(s, g) ==
    \A c \in Range(s.cfg) : \E a \in Range(g.attrs) : a[1] = c[1] \o "_" \o c[2] /\ a[2] = c[3]
=============================================================================
