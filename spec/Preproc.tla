------------------------------ MODULE Preproc -------------------------------
(***************************************************************************)
(* The steps of the pre-processing: types that are not recognised are      *)
(* blanked, areas of a type are put together, everything is cropped, and   *)
(* the parcel gets the type of the area that shares most with it.          *)
(***************************************************************************)
EXTENDS PreprocDefs

CONSTANTS W, MaxSet, Fault

Squares == (0..(W - 1)) \X {0} \X {0, 1}
Types == {"City", "Urban", "Hamlet"}
Boxes == {<<>>} \cup {<<x1, x2, 0, 1>> : x1 \in 0..(W - 1), x2 \in 1..W}

VARIABLES ss, parcel, box, groups, pc, given
vars == <<ss, parcel, box, groups, pc, given>>

Init == /\ ss \in UNION {[1..n -> [t : Types, a : SUBSET Squares \ {{}}]] : n \in 0..MaxSet}
        /\ parcel \in SUBSET Squares \ {{}}
        /\ box \in {b \in Boxes : b = <<>> \/ b[1] < b[2]}
        /\ groups = <<>> /\ pc = "dissolve" /\ given = {}

\* a list of groups [k, a], in some order
Dissolve ==
    /\ pc = "dissolve" /\ pc' = "crop"
    /\ groups' = IF Fault = "single" THEN [i \in 1..Len(ss) |-> [k |-> Kind(ss[i].t), a |-> ss[i].a]]
                 ELSE LET ks == Kinds(ss) \ (IF Fault = "drop" THEN {""} ELSE {})
                          f == CHOOSE f \in [1..Cardinality(ks) -> ks] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]
                      IN [i \in DOMAIN f |-> [k |-> f[i], a |-> AreaOf(ss, f[i], <<>>)]]
    /\ UNCHANGED <<ss, parcel, box, given>>
CropAll ==
    /\ pc = "crop" /\ pc' = "join"
    /\ groups' = SelectSeq([i \in 1..Len(groups) |-> [k |-> groups[i].k, a |-> Crop(groups[i].a, box)]],
                           LAMBDA g : g.a # {})
    /\ parcel' = IF Fault = "crop" THEN parcel ELSE Crop(parcel, box)
    /\ UNCHANGED <<ss, box, given>>
Join ==
    /\ pc = "join" /\ pc' = "done" /\ parcel # {}
    /\ LET hit == {i \in 1..Len(groups) : CornersOf(groups[i].a) \cap CornersOf(parcel) # {}}
           share(i) == Cardinality(groups[i].a \cap parcel)
           best == {i \in hit : \A j \in hit : share(j) <= share(i)}
           pick == IF Fault = "first" THEN {i \in hit : \A j \in hit : i <= j} ELSE best
       IN \E k \in (IF hit = {} THEN {""} ELSE {groups[i].k : i \in pick}) : given' = {k}
    /\ UNCHANGED <<ss, parcel, box, groups>>
Next == Dissolve \/ CropAll \/ Join
Spec == Init /\ [][Next]_vars

Right == pc = "done" => given \subseteq Allowed(ss, parcel, box)
Inside == pc = "done" => Crop(parcel, box) = parcel
\* the order in which the settlements are listed does not matter
Perm == pc = "done" =>
    \A i, j \in 1..Len(ss) :
        Allowed([q \in 1..Len(ss) |-> IF q = i THEN ss[j] ELSE IF q = j THEN ss[i] ELSE ss[q]], parcel, box)
        = Allowed(ss, parcel, box)
=============================================================================
