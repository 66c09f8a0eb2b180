------------------------------- MODULE Convert -------------------------------
(***************************************************************************)
(* Conversion of a tile, followed at one cell: the directions are read in  *)
(* order, each gives a band, and then the maximum is taken over the bands  *)
(* of the combined product.                                                *)
(***************************************************************************)
EXTENDS ConvertDefs, TLC

CONSTANTS NDirs,      \* directions modelled (a prefix of the eight)
          Values,     \* values of a factor
          Faulty      \* "none" or the name of a faulty design

VARIABLES files,      \* direction -> type -> factor
          bands,      \* the bands written so far
          prod,       \* running product of the direction being read
          todo,       \* types not read yet in this direction
          maxb        \* the maximum band (a sequence of length 0 or 1)
vars == <<files, bands, prod, todo, maxb>>

Dirs == 1..NDirs
Factors == Values \cup {Miss, Absent}

Init == /\ files \in [Dirs -> [Types -> Factors]]
        /\ bands = <<>> /\ prod = 1 /\ todo = Types /\ maxb = <<>>

Times(p, f) ==
    IF Faulty = "missing-is-one" THEN p * (IF f = Miss THEN Unit ELSE Num(f))
    ELSE IF p = Miss \/ f = Miss THEN Miss ELSE p * Num(f)

\* the factors of a direction are read in any order
Read(t) == /\ Len(bands) < NDirs /\ t \in todo
           /\ prod' = Times(prod, files[Len(bands) + 1][t])
           /\ todo' = todo \ {t}
           /\ UNCHANGED <<files, bands, maxb>>
Write == /\ Len(bands) < NDirs /\ todo = {}
         /\ bands' = Append(bands, prod)
         /\ prod' = 1 /\ todo' = Types
         /\ UNCHANGED <<files, maxb>>

Range(s) == {s[i] : i \in 1..Len(s)}
MaxDesign == IF Faulty = "missing-poisons" /\ Miss \in Range(bands) THEN Miss
             ELSE CHOOSE m \in Range(bands) : IsMax(m, Range(bands))
Reduce == /\ Len(bands) = NDirs /\ maxb = <<>>
          /\ maxb' = <<MaxDesign>>
          /\ UNCHANGED <<files, bands, prod, todo>>

Next == (\E t \in Types : Read(t)) \/ Write \/ Reduce
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

BandLaw == \A d \in 1..Len(bands) : bands[d] = Combine(files[d])
MissingExactly == \A d \in 1..Len(bands) :
    (bands[d] = Miss) <=> (\E t \in Types : files[d][t] = Miss)
MaxLaw == maxb # <<>> => IsMax(maxb[1], Range(bands))
MaxMissing == maxb # <<>> =>
    ((maxb[1] = Miss) <=> \A d \in Dirs : \E t \in Types : files[d][t] = Miss)
\* an absent file and a file of ones are the same thing
Neutral == \A d \in Dirs :
    Combine(files[d]) = Combine([t \in Types |-> Num(files[d][t])])
Finishes == <>(maxb # <<>>)
=============================================================================
