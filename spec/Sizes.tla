------------------------------- MODULE Sizes -------------------------------
(***************************************************************************)
(* Containers of any width.  The small models reach every shape of at most *)
(* a handful of nodes; here one container grows child by child, past every *)
(* size at which code likes to have a limit (a byte, a power of two, the   *)
(* digits of an index), and at each size every operation is made near both *)
(* ends and near those limits.                                             *)
(*                                                                         *)
(* An edit of a wide container is a splice: the children before it, maybe  *)
(* something new, the children behind it.  Checked: the splices are what   *)
(* the operations of JsonTree do.  Emitted: the splices and the outcomes.  *)
(***************************************************************************)
EXTENDS JsonTree, Json, TLC

CONSTANTS
  MaxWide, \* children
  Wide,   \* the sizes looked at
  Marks,  \* positions of interest in all of them
  Emit

VARIABLES t, n

vars == <<t, n>>

Init == t \in {"a", "o"} /\ n = 0
Next == n < MaxWide /\ n' = n + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------

Num(j) == [t |-> "n", k |-> <<>>, c |-> <<>>, v |-> DecimalOf(j)]
New == [t |-> "z", k |-> <<>>, c |-> <<>>, v |-> NULLTEXT]

NameOf(j) == <<107>> \o DecimalOf(j)  \* k0, k1, ...
NewName == <<122>>

\* child j (0..) is called by its index or its name
Elem(j) == IF t = "a" THEN DecimalOf(j) ELSE NameOf(j)

Children(m) == [i \in 1..m |-> Num(i - 1)]

Doc(m) == [t |-> t, k |-> IF t = "o" THEN [i \in 1..m |-> NameOf(i - 1)] ELSE <<>>, c |-> Children(m), v |-> <<>>]

Here == Doc(n)

Probes == {i \in {0, 1, 2, n - 3, n - 2, n - 1, n, n + 1} \cup Marks : i >= 0 /\ i <= n + 1}

---------------------------------------------------------------------------
(* Edits: o: operation, i: the child it is about, then codes, and the      *)
(* splice: b children stay, d go, a come; rn: child i has another name.    *)

Rec(o, i, r, b, d, a, rn) ==
  [o |-> o, i |-> i, c |-> r.codes, b |-> b, d |-> d, a |-> a, rn |-> rn, r |-> r.doc]

EditsAt(i) ==
  {Rec("Set", i, OpSet(Here, <<Elem(i)>>, New), i, 1, 1, 0),
   Rec("Delete", i, OpDelete(Here, <<Elem(i)>>), i, 1, 0, 0)}
  \cup
  (IF t = "a"
   THEN {Rec("Insert", i, OpInsert(Here, <<>>, i, New), i, 0, 1, 0)}
   ELSE {Rec("SetKey", i, OpSetKey(Here, <<Elem(i)>>, NewName), n, 0, 0, 1),
         Rec("AddKeyValue", i, OpAddKeyValue(Here, <<>>, NameOf(i), New), n, 0, 1, 0),
         Rec("Store", i, OpStore(Here, <<>>, NameOf(i), New), IF i < n THEN i ELSE n, IF i < n THEN 1 ELSE 0, 1, 0)})

Adds ==
  IF t = "a" THEN {Rec("Add", n, OpAdd(Here, <<>>, New), n, 0, 1, 0)}
  ELSE {Rec("AddNew", n, OpAddKeyValue(Here, <<>>, NewName, New), n, 0, 1, 0),
        Rec("StoreNew", n, OpStore(Here, <<>>, NewName, New), n, 0, 1, 0)}

Edits == Adds \cup UNION {EditsAt(i) : i \in Probes}

\* the name of what an edit puts in
Called(e) == IF e.o \in {"AddNew", "StoreNew"} THEN NewName ELSE NameOf(e.i)

Spliced(e) ==
  LET put(s, x) == SubSeq(s, 1, e.b) \o (IF e.a = 1 THEN <<x>> ELSE <<>>) \o SubSeq(s, e.b + e.d + 1, n)
      named == IF t = "a" THEN <<>> ELSE put(Here.k, Called(e))
  IN [t |-> t, c |-> put(Here.c, New), v |-> <<>>,
      k |-> IF e.rn = 1 THEN [named EXCEPT ![e.i + 1] = NewName] ELSE named]

---------------------------------------------------------------------------

\* a container of n children is n additions
Grown ==
  n > 0 =>
    LET was == Doc(n - 1)
    IN IF t = "a" THEN OpAdd(was, <<>>, Num(n - 1)) = Done(Here)
       ELSE OpAddKeyValue(was, <<>>, NameOf(n - 1), Num(n - 1)) = Done(Here)

SplicesExact ==
  n \in Wide => \A e \in Edits : IF e.c = {OK} THEN e.r = Spliced(e) ELSE e.r = Here

\* what is behind an edit moves by what the edit brings or takes, and by no more
Moves ==
  n \in Wide =>
    \A e \in Edits : e.c = {OK} =>
      /\ Len(e.r.c) = n + e.a - e.d
      /\ t = "o" => Len(e.r.k) = Len(e.r.c) /\ \A k \in {NewName, NameOf(e.i)} : Cardinality({j \in 1..Len(e.r.k) : e.r.k[j] = k}) <= 1
      /\ \A j \in 1..e.b : e.r.c[j] = Here.c[j]
      /\ \A j \in (e.b + e.d + 1)..n : e.r.c[j + e.a - e.d] = Here.c[j]

Lookups ==
  n \in Wide =>
    \A i \in Probes :
      LET r == Resolve(Here, <<Elem(i)>>)
      IN (r.ok <=> i < n) /\ (r.ok => r.v = Num(i))

Vector ==
  [t |-> t, n |-> n, p |-> {i \in Marks : i <= n},
   g |-> {[i |-> i, c |-> Resolve(Here, <<Elem(i)>>).codes] : i \in Probes},
   e |-> {[o |-> e.o, i |-> e.i, c |-> e.c, b |-> e.b, d |-> e.d, a |-> e.a, rn |-> e.rn] : e \in Edits}]

Emitted == ~Emit \/ n \notin Wide \/ PrintT(ToJson(Vector))

\* values of the constants
MarksA == {7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 200, 255, 256, 511, 512, 999, 1000}
WideA == (0..34) \cup (63..65) \cup (99..102) \cup (126..130) \cup (254..260) \cup {300}
WideB == (0..140) \cup (250..260) \cup (300..303) \cup (510..515) \cup (998..1003) \cup (1022..1026)

=============================================================================
