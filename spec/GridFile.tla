------------------------------ MODULE GridFile ------------------------------
(***************************************************************************)
(* Writing a file of gridded data: the file is made, each dimension and    *)
(* each variable is defined and written in its turn, then the file is      *)
(* closed, or handed to the caller.  A description with a fault is refused *)
(* and leaves the file closed.  In the end the file is what it was told to *)
(* be.  Faults:                                                            *)
(*   first   the file is closed after its first variable                   *)
(*   last    the attributes of a variable are those of the last one        *)
(*   fill    missing values are not marked                                 *)
(*   leak    a refused call leaves the file open                           *)
(***************************************************************************)
EXTENDS GridFileDefs

CONSTANTS MaxDims, MaxVars, Fault

VARIABLES call, file, pc, k, open
vars == <<call, file, pc, k, open>>

DimNames == <<"y", "x">>
VarNames == <<"a", "b", "c">>
Dim(i) == [name |-> DimNames[i], values |-> [j \in 1..i |-> 10 * i + j], atts |-> <<<<"units", i>>>>]
Subsets(n) == UNION {{<<>>}, {<<DimNames[i]>> : i \in 1..n}, {<<DimNames[i], DimNames[j]>> : i, j \in 1..n}}
Proper(n) == {s \in Subsets(n) : Len(s) = 2 => s[1] # s[2]}
Vars(nd, nv) == [1..nv -> [dims : Proper(nd), has : {0, 1}]]
Calls == UNION {UNION {
    {[dims |-> [i \in 1..nd |-> Dim(i)],
      vars |-> [i \in 1..nv |-> [name |-> VarNames[i], dims |-> f[i].dims, has |-> f[i].has, tol |-> 0, fill |-> -9,
                                 values |-> <<i>>, atts |-> <<<<"units", 100 + i>>>>]],
      gatts |-> <<<<"title", 1>>>>, write |-> w, filled |-> 1, bad |-> b] :
        f \in Vars(nd, nv), w \in {0, 1}, b \in {0, nv}} : nv \in 0..MaxVars} : nd \in 0..MaxDims}

Content(c, i) == LET v == c.vars[i] n == Size(c, v) IN
    [j \in 1..n |-> IF v.has = 1 /\ c.write = 1 THEN i ELSE IF Fault = "fill" THEN 0 ELSE v.fill]
Full(c) == [c EXCEPT !.vars = [i \in DOMAIN c.vars |-> [c.vars[i] EXCEPT !.values = [j \in 1..Size(c, c.vars[i]) |-> i]]]]

Init == /\ call \in Calls
        /\ file = [dims |-> <<>>, vars |-> <<>>, gatts |-> <<>>]
        /\ pc = "dims" /\ k = 1 /\ open = TRUE
PutDim == /\ pc = "dims" /\ k <= Len(call.dims) /\ k' = k + 1
          /\ file' = [file EXCEPT !.dims = Append(@, [name |-> call.dims[k].name, size |-> Len(call.dims[k].values)]),
                                  !.vars = Append(@, [name |-> call.dims[k].name, dims |-> <<call.dims[k].name>>,
                                                      values |-> call.dims[k].values, atts |-> call.dims[k].atts])]
          /\ UNCHANGED <<call, pc, open>>
DimsDone == pc = "dims" /\ k > Len(call.dims) /\ pc' = "vars" /\ k' = 1 /\ UNCHANGED <<call, file, open>>
Refuse == /\ pc = "vars" /\ k <= Len(call.vars) /\ call.bad = k
          /\ pc' = "refused" /\ open' = (Fault = "leak") /\ UNCHANGED <<call, file, k>>
PutVar == /\ pc = "vars" /\ k <= Len(call.vars) /\ call.bad # k
          /\ file' = [file EXCEPT !.vars = Append(@, [name |-> call.vars[k].name, dims |-> call.vars[k].dims,
                         values |-> Content(call, k),
                         atts |-> IF Fault = "last" THEN call.vars[Len(call.vars)].atts ELSE call.vars[k].atts])]
          /\ IF Fault = "first" THEN pc' = "close" /\ k' = k ELSE pc' = pc /\ k' = k + 1
          /\ UNCHANGED <<call, open>>
VarsDone == pc = "vars" /\ k > Len(call.vars) /\ pc' = "close" /\ UNCHANGED <<call, file, k, open>>
Close_ == /\ pc = "close" /\ pc' = "done" /\ open' = FALSE
          /\ file' = [file EXCEPT !.gatts = call.gatts] /\ UNCHANGED <<call, k>>
Next == PutDim \/ DimsDone \/ Refuse \/ PutVar \/ VarsDone \/ Close_
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Complete == pc = "done" => Faithful(Full(call), file) /\ ~open
Refused == pc = "refused" => ~open
NoSilence == pc = "done" => call.bad = 0
Ends == <>(pc \in {"done", "refused"})
=============================================================================
