--------------------------- MODULE GridFileTrace ----------------------------
(***************************************************************************)
(* Judges files of gridded data written by the code.  r.call is the call   *)
(* (see GridFileDefs; bad: "", or the exception that must answer it),      *)
(* r.out the exception it raised or "", r.file the file read back (if the  *)
(* call is not bad), r.kept whether the caller was handed an open file in  *)
(* which it could write (asked: r.call.keep), r.closed whether no handle   *)
(* of the file is left, r.same whether the caller's arguments are as       *)
(* before, and r.crs whether a multiplier file names its ellipsoid.        *)
(***************************************************************************)
EXTENDS TraceRec, GridFileDefs

Clauses(r) ==
    IF r.call.bad # "" THEN Cl("Refused", r.out = r.call.bad) \cup Cl("Closed", r.closed = 1)
    ELSE IF r.out # "" THEN {"NoError"}
    ELSE Cl("AllDims", AllDims(r.call, r.file)) \cup Cl("AllVars", AllVars(r.call, r.file))
         \cup Cl("DimsOfVars", DimsOfVars(r.call, r.file)) \cup Cl("Values", Values(r.call, r.file))
         \cup Cl("Atts", Atts(r.call, r.file)) \cup Cl("GlobalAtts", GlobalAtts(r.call, r.file))
         \cup Cl("Kept", r.kept = r.call.keep) \cup Cl("Closed", r.closed = 1)
         \cup Cl("SameArguments", r.same = 1) \cup Cl("CoordinateReference", r.crs = 1)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
