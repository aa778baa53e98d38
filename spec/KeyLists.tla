----------------------------- MODULE KeyLists -----------------------------
(***************************************************************************)
(* Key lists of Schemes, and what a Scheme makes of a document: operators  *)
(* shared by the state machine Scheme and by the validation of traces.     *)
(***************************************************************************)
EXTENDS JsonTree

HasKey(ks, k) == \E j \in 1..Len(ks) : ks[j] = k
WithKey(ks, k) == IF HasKey(ks, k) THEN ks ELSE Append(ks, k)
WithoutKey(ks, k) == SelectSeq(ks, LAMBDA x : x # k)

\* d has all keys
Fits(d, ks) == \A j \in 1..Len(ks) : Resolve(d, <<ks[j]>>).ok

\* d is an object with exactly the keys, in any order
FitsExactly(d, ks) ==
  d.t = "o" /\ Len(d.k) = Len(ks) /\ \A j \in 1..Len(d.k) : HasKey(ks, d.k[j])

\* the only document the statement leaves open: {} against no key at all
\* (the keys of a document that is exactly {} are reported as an error)
ExactOpen(d, ks) == d = Obj(<<>>, <<>>) /\ ks = <<>>

\* d projected to the keys: absent ones are ""
ProjectionOf(d, ks) ==
  Obj(ks, [j \in 1..Len(ks) |->
    LET r == Resolve(d, <<ks[j]>>) IN IF r.ok THEN r.v ELSE Str(<<>>)])

=============================================================================
