------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Any bytes at all: every string over an alphabet up to a length, and     *)
(* well-formed documents damaged at up to Changes places.  The grammar     *)
(* machine of module Grammar reaches well-formed texts and their           *)
(* beginnings; this one reaches everything else.  For each text the        *)
(* specification says whether it is well-formed, and whether its brackets  *)
(* are so far off that Parse must refuse it.                               *)
(***************************************************************************)
EXTENDS JsonTree, Json, TLC

CONSTANTS Seeds, Alphabet, MaxLen, Changes, Emit

VARIABLES x, left

vars == <<x, left>>

Init == \/ x = <<>> /\ left = -1
        \/ x \in Seeds /\ left = Changes

Grow == /\ left = -1 /\ Len(x) < MaxLen
        /\ \E b \in Alphabet : x' = Append(x, b)
        /\ UNCHANGED left

Swap(t, i) == [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]]

Damage ==
  /\ left > 0 /\ left' = left - 1
  /\ \/ \E i \in 1..Len(x) : x' = RemoveNth(x, i)
     \/ \E i \in 1..Len(x), b \in Alphabet : x' = [x EXCEPT ![i] = b]
     \/ \E i \in 1..(Len(x) + 1), b \in Alphabet : x' = InsertNth(x, i, b)
     \/ \E i \in 1..(Len(x) - 1) : x' = Swap(x, i)
     \/ \E i \in 1..Len(x) : x' = SubSeq(x, i, Len(x))
     \/ \E i \in 1..Len(x) : x' = SubSeq(x, 1, i)
     \/ \E i \in 1..Len(x), j \in 1..Len(x) : i < j /\ x' = SubSeq(x, 1, i) \o SubSeq(x, i, j) \o SubSeq(x, j + 1, Len(x))

Next == Grow \/ Damage

Spec == Init /\ [][Next]_vars

TextView == <<x, left >= 0>>

---------------------------------------------------------------------------

P == Parse(x)

\* the parser is total, and what it accepts is what the grammar means:
\* its own rendering, read again, is the same document
ParserTotal ==
  /\ P.ok \in BOOLEAN
  /\ P.ok => LET v == Ast(x, P.root)
                 r == Render(v)
             IN /\ Parse(r).ok
                /\ Ast(r, Parse(r).root) = v
                /\ Canon(x) = r
                /\ ~Unbalanced(x)

\* balance does not depend on insignificant space
BalanceOfCanon == Unbalanced(x) <=> Unbalanced(Canon(x))

Emitted ==
  ~Emit \/ PrintT(ToJson([d |-> x, fin |-> 0, u |-> IF Unbalanced(x) THEN 1 ELSE 0,
                          ok |-> IF P.ok /\ P.root.t \in {"o", "a"} THEN 1 ELSE 0]))

\* values of the constants
AllBytes == {123, 125, 91, 93, 34, 92, 58, 44, 49, 97, 32, 116}   \* { } [ ] " \ : , 1 a space t
Structure == {123, 125, 91, 93, 34, 58, 44, 97}
Brackets == {123, 125, 91, 93, 34}
Objects == {123, 125, 34, 58, 97, 44}
Arrays == {91, 93, 44, 49, 32, 34}
OddBytes == {0, 255, 34, 92, 125, 93, 9}
NoSeeds == {}
\* {"a":[1,"]"]}  [{"a":{}},2]  {"a":"\"","b":null}  [ [ ] , { } ]
S1 == <<123,34,97,34,58,91,49,44,34,93,34,93,125>>
S2 == <<91,123,34,97,34,58,123,125,125,44,50,93>>
S3 == <<123,34,97,34,58,34,92,34,34,44,34,98,34,58,110,117,108,108,125>>
S4 == <<91,32,91,32,93,32,44,32,123,32,125,32,93>>
SeedsA == {S1, S2}
SeedsB == {S3, S4}
SeedsAll == SeedsA \cup SeedsB
=============================================================================
