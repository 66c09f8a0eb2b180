---------------------------- MODULE FileIdTrace -----------------------------
(***************************************************************************)
(* Judges histories of files: r.ops is what was done (put, add, touch, cp, *)
(* rm, save) and asked (stat, size, date, load) of the files 1..r.n, with  *)
(* the answers (exc: "" or the exception raised), r.off the offset of the  *)
(* local time in seconds, r.left the files at the end.  r.kind = "mod":    *)
(* what functions are told about the module that called them.              *)
(***************************************************************************)
EXTENDS TraceRec, FileIdDefs

None == [k |-> "none", c |-> <<>>, t |-> -1, rows |-> <<>>, h |-> 0, sig |-> 0]
Raw(c, t) == [None EXCEPT !.k = "raw", !.c = c, !.t = t]

After(s, o) ==
    CASE o.op = "put" -> [s EXCEPT ![o.f] = Raw(Canon(o.c), o.t)]
      [] o.op = "add" -> [s EXCEPT ![o.f] = Raw(Canon(s[o.f].c \o o.c), s[o.f].t)]
      [] o.op = "touch" -> [s EXCEPT ![o.f].t = o.t]
      [] o.op = "cp" -> [s EXCEPT ![o.g] = [s[o.f] EXCEPT !.t = o.t]]
      [] o.op = "rm" -> [s EXCEPT ![o.f] = None]
      [] o.op = "save" -> [s EXCEPT ![o.f] = [None EXCEPT !.k = "table", !.rows = o.rows, !.h = o.h, !.sig = o.sig]]
      [] OTHER -> s

States(r) ==
    LET f[i \in 0..Len(r.ops)] == IF i = 0 THEN [x \in 1..r.n |-> None] ELSE After(f[i - 1], r.ops[i])
    IN f

Known(a) == a.t >= 0
Told(o, a, off) ==      \* what o tells of a file a
    CASE o.op = "stat" ->
            Cl("Path", o.dir = o.pdir /\ o.base = o.pbase)
            \cup Cl("Digest", a.k = "raw" => DigestOf(a.c, o.md5))
            \cup Cl("Modified", Known(a) => LET d == Date(a.t + off) IN
                    o.date = d /\ o.mon = Months[d[2]] /\ o.wd = Weekday(a.t + off))
      [] o.op = "size" -> Cl("Size", a.k = "raw" => o.size = Bytes(a.c))
      [] o.op = "date" -> Cl("Modified", Known(a) => o.date = Date(a.t + off))
      [] o.op = "load" -> LET rows == RowsFrom(a.rows, a.h, o.skip) IN
            Cl("Table", o.flat = Flat(rows) /\ o.shape = Shape(rows))
      [] OTHER -> {}

Asks(o) == o.op \in {"stat", "size", "date", "load"}
One(o, a, off) ==
    IF o.op = "save" THEN Cl("Saved", o.exc = "")
    ELSE IF ~Asks(o) THEN {}
    ELSE IF a.k = "none" THEN Cl("Refused", o.exc = "OSError")
    ELSE IF o.exc # "" THEN {"NoError"}
    ELSE Told(o, a, off)

SameFile(a, b) == a.k = b.k /\ a.c = b.c /\ a.sig = b.sig
Left(r, s) == \A x \in 1..r.n :
    LET a == s[x] l == r.left[x] IN
    /\ (a.k = "none") = (l.there = 0)
    /\ a.k = "raw" => Canon(l.c) = a.c
    /\ a.k # "none" /\ Known(a) => l.t = a.t

History(r) ==
    LET s == States(r)
        stats == {i \in 1..Len(r.ops) : r.ops[i].op = "stat" /\ s[i][r.ops[i].f].k # "none" /\ r.ops[i].exc = ""}
    IN  UNION {One(r.ops[i], s[i - 1][r.ops[i].f], r.off) : i \in 1..Len(r.ops)}
        \cup Cl("SameDigestIffSameContent", \A i, j \in stats :
                LET a == s[i][r.ops[i].f] b == s[j][r.ops[j].f] same == r.ops[i].md5 = r.ops[j].md5 IN
                IF a.k = "raw" /\ b.k = "raw" THEN (a.c = b.c) <=> same
                ELSE a.k = b.k /\ a.sig = b.sig => same)
        \cup Cl("OtherwiseAsBefore", Has(r, "left") => Left(r, s[Len(r.ops)]))
        \cup Cl("SameArguments", r.same = 1)

Clauses(r) ==
    IF r.kind = "died" THEN {"Ends"}
    ELSE IF r.kind = "mod" THEN
        Cl("ModulePath", r.path = r.wpath) \cup Cl("ModuleName", r.name = r.wname)
        \cup Cl("ConfigFile", r.cfg = r.wcfg) \cup Cl("Version", r.ver = r.wver)
    ELSE History(r)

TraceSpec == TraceInit /\ [][Judge(Clauses)]_tvars
=============================================================================
