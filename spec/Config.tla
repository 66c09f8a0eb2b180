------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration: a store of settings read from the default file at    *)
(* the start, updated from the files that are named.  Faults:              *)
(*   once      a file that was read is not read again                      *)
(*   replace   naming a file forgets the settings of the files before      *)
(*   reread    reading a setting reads the named file again                *)
(*   lazy      a named file is read when the first setting is              *)
(*   first     the value first read of a setting is kept                   *)
(*   default   naming the default file has no effect                       *)
(* File 0 is the default file, which may be named as well.                *)
(* With Gen > 0 the histories of that length are printed.                  *)
(***************************************************************************)
EXTENDS ConfigDefs, TLC, Json

CONSTANTS Files, Settings, DefaultHas, Depth, Fault, Gen

VARIABLES disk, store, named, seen, hist, got, kept, kind
vars == <<disk, store, named, seen, hist, got, kept, kind>>
Kinds == {"write", "name", "get", "any"}

Nothing == [s \in Settings |-> -1]     \* a file which defines nothing

Default == [s \in Settings |-> IF s \in DefaultHas THEN 0 ELSE -1]

Init == /\ disk = [f \in Files \cup {0} |-> IF f = 0 THEN Default ELSE Nothing]
        /\ store = [s \in Settings |-> 0]
        /\ named = -1 /\ seen = {} /\ hist = <<>> /\ got = TRUE
        /\ kept = [s \in Settings |-> -1]
        /\ kind = IF Gen = 0 THEN "any" ELSE "write"

\* what reading a file leaves in the store
Read(f, st) == [s \in Settings |-> IF disk[f][s] # -1 THEN disk[f][s]
                                   ELSE IF Fault = "replace" THEN 0 ELSE st[s]]
Order(D) == CHOOSE q \in [1..Cardinality(D) -> D] : Range(q) = D

Write(f, D) ==
    /\ hist' = Append(hist, [op |-> "write", f |-> f, set |-> Order(D), v |-> Len(hist) + 1])
    /\ disk' = [disk EXCEPT ![f] = [s \in Settings |-> IF s \in D THEN Len(hist) + 1 ELSE -1]]
    /\ UNCHANGED <<store, named, seen, got, kept>>
Name(f) ==
    /\ f = 0 \/ Writing(hist, Len(hist), f) # 0
    /\ hist' = Append(hist, [op |-> "name", f |-> f, set |-> IF f = 0 THEN Order(DefaultHas) ELSE <<>>, v |-> 0])
    /\ named' = f /\ seen' = seen \cup {f}
    /\ store' = IF Fault = "lazy" \/ (Fault = "once" /\ f \in seen)
                 \/ (Fault = "default" /\ f = 0) THEN store ELSE Read(f, store)
    /\ UNCHANGED <<disk, got, kept>>
Get(s) ==
    LET now == IF Fault \in {"reread", "lazy"} /\ named # -1 THEN Read(named, store) ELSE store
        val == IF Fault = "first" /\ kept[s] # -1 THEN kept[s] ELSE now[s] IN
    /\ hist' = Append(hist, [op |-> "get", f |-> 0, set |-> <<s>>, v |-> 0])
    /\ store' = now
    /\ kept' = [kept EXCEPT ![s] = val]
    /\ got' = (val = Value(hist, Len(hist), s))
    /\ UNCHANGED <<disk, named, seen>>
\* when generating, the kind of the next operation is drawn first
Is(k) == kind \in {k, "any"}
Next == \/ /\ Len(hist) < Depth
           /\ \/ Is("write") /\ \E f \in Files, D \in SUBSET Settings : D # {} /\ Write(f, D)
              \/ Is("name") /\ \E f \in Files \cup {0} : Name(f)
              \/ Is("get") /\ \E s \in Settings : Get(s)
           /\ kind' \in (IF Gen = 0 THEN {"any"} ELSE Kinds \ {"any"})
        \/ /\ Gen = 1 /\ Len(hist) = Depth /\ kind # "end"
           /\ PrintT("GEN " \o ToJson([hist |-> hist]))
           /\ kind' = "end"
           /\ UNCHANGED <<disk, store, named, seen, hist, got, kept>>
Spec == Init /\ [][Next]_vars

GetsRight == got
StoreRight == \A s \in Settings : store[s] = Value(hist, Len(hist), s)
=============================================================================
