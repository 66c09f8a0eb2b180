---------------------------- MODULE ConfigTrace -----------------------------
(***************************************************************************)
(* Judges the settings the code gave in a history: r.hist is the history   *)
(* (see ConfigDefs), r.got a sequence of readings: at (the number of       *)
(* operations before), who (the way it was read), s and v: the value, -1   *)
(* if the setting is not defined, -9 if it is none that was ever written.  *)
(* r.nodefault are the settings the default file does not define, for      *)
(* which 0 reads as -1; readings of tables are not judged for value 0.     *)
(***************************************************************************)
EXTENDS TraceRec, ConfigDefs

Right(r, g) ==
    LET v == Value(r.hist, g.at, g.s) IN
    IF v # 0 THEN g.v = v
    ELSE \/ g.who = "table"
         \/ g.v = IF g.s \in Range(r.nodefault) THEN -1 ELSE 0
Wrong(r) == {r.got[i].who : i \in {k \in DOMAIN r.got : ~Right(r, r.got[k])}}
Clauses(r) ==
    Cl("NoError", r.exc = 0)
    \cup {"SettingOfMostRecentFile via " \o w : w \in Wrong(r)}

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
