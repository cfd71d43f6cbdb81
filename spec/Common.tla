------------------------------- MODULE Common -------------------------------
(* Shared by every specification.  A specification records the steps it takes *)
(* in `hist` when Record is TRUE (behaviour generation); in exhaustive        *)
(* checking Record is FALSE and hist stays empty.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Randomization

CONSTANTS
    Pick(_),      \* PickAll in exhaustive checking, PickOne in generation
    Record,       \* BOOLEAN
    Depth         \* length of a generated behaviour

VARIABLE hist

PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(IF Len(hist) >= 0 THEN S ELSE {})}

RecInit(step) == hist = IF Record THEN <<step>> ELSE <<>>
Rec(step) == hist' = IF Record THEN Append(hist, step) ELSE hist

\* Printed once per generated behaviour.
Emit == (~Record) \/ Len(hist) # Depth \/ PrintT("BEH " \o ToJson(hist))

\* An unordered collection in an expectation.
AsSet(S) == [set |-> SetToSeq(S)]

RECURSIVE SeqOfSet(_, _)
\* The elements of S in the order given by the sequence ord.
SeqOfSet(S, ord) == IF ord = <<>> THEN <<>>
                    ELSE (IF Head(ord) \in S THEN <<Head(ord)>> ELSE <<>>) \o SeqOfSet(S, Tail(ord))

FlatSeq(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
=============================================================================
