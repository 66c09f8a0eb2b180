---------------------------- MODULE GridFileDefs ----------------------------
(***************************************************************************)
(* A file of gridded data against the call that wrote it.  A call c has    *)
(* dims (name, values, atts), vars (name, dims, values, atts, has: whether *)
(* there are values, tol: 0 or the unit to which values may be rounded),   *)
(* gatts, fill (the missing value) and write (whether data are written).   *)
(* A file g has dims (name, size), vars (name, dims, values, atts) and     *)
(* gatts.  A dimension has a variable of its name.  Attributes are pairs.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Named(s, n) == CHOOSE v \in Range(s) : v.name = n
Names(s) == {s[i].name : i \in DOMAIN s}

AllDims(c, g) == {<<d.name, Len(d.values)>> : d \in Range(c.dims)} = {<<d.name, d.size>> : d \in Range(g.dims)}
AllVars(c, g) == Names(c.dims) \cup Names(c.vars) = Names(g.vars)
DimsOfVars(c, g) ==
    /\ \A v \in Range(c.vars) : v.name \in Names(g.vars) => Named(g.vars, v.name).dims = v.dims
    /\ \A d \in Range(c.dims) : d.name \in Names(g.vars) => Named(g.vars, d.name).dims = <<d.name>>

(* values are compared exactly, or, if rounded, in hundredths of the unit  *)
Size(c, v) == IF v.dims = <<>> THEN 1 ELSE
    LET f[i \in 0..Len(v.dims)] == IF i = 0 THEN 1 ELSE f[i - 1] * Len(Named(c.dims, v.dims[i]).values) IN f[Len(v.dims)]
Close(v, a, b) ==
    IF v.tol = 0 THEN a = b
    ELSE /\ Len(a) = Len(b)
         /\ \A i \in DOMAIN a : a[i] - b[i] <= 55 /\ b[i] - a[i] <= 55
Values(c, g) ==
    /\ \A d \in Range(c.dims) : d.name \in Names(g.vars) => Named(g.vars, d.name).values = d.values
    /\ \A v \in Range(c.vars) : v.name \in Names(g.vars) =>
         LET w == Named(g.vars, v.name).values IN
         IF v.has = 1 /\ c.write = 1 THEN Close(v, v.values, w)
         ELSE Len(w) = Size(c, v) /\ (c.filled = 1 => \A i \in DOMAIN w : w[i] = v.fill)

Atts(c, g) ==
    /\ \A v \in Range(c.vars) : v.name \in Names(g.vars) => Range(v.atts) \subseteq Range(Named(g.vars, v.name).atts)
    /\ \A d \in Range(c.dims) : d.name \in Names(g.vars) => Range(d.atts) \subseteq Range(Named(g.vars, d.name).atts)
GlobalAtts(c, g) == Range(c.gatts) \subseteq Range(g.gatts)
Faithful(c, g) == AllDims(c, g) /\ AllVars(c, g) /\ DimsOfVars(c, g) /\ Values(c, g) /\ Atts(c, g) /\ GlobalAtts(c, g)
=============================================================================
