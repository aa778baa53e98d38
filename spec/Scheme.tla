------------------------------ MODULE Scheme ------------------------------
(***************************************************************************)
(* Schemes as state machines: each is its current and its saved key list.  *)
(* Histories of any number of them are explored one by one (hist is part   *)
(* of the state), because what the code holds may depend on the history    *)
(* and not on the lists alone: slices share memory.                        *)
(*                                                                         *)
(* Emit = {"History"}: every history of MaxSteps steps, with the reply and *)
(*   the lists after each step.                                            *)
(* Emit = {"Project"}: every key list against every document of Docs.      *)
(***************************************************************************)
EXTENDS KeyLists, Tokens, Json, TLC

CONSTANTS
  Ids,       \* the Schemes
  Keys,      \* names (one byte)
  Starts,    \* key lists Schemes are made with
  MaxSteps,
  Docs,      \* documents to project and check
  Emit

VARIABLES cur, orig, hist, doc, start

vars == <<cur, orig, hist, doc, start>>
lists == <<cur, orig>>

Init ==
  /\ cur \in [Ids -> Starts]
  /\ orig = cur
  /\ start = cur
  /\ hist = <<>>
  /\ doc \in Docs

More(s, o, k, n) ==
  /\ Len(hist) < MaxSteps
  /\ hist' = Append(hist, [s |-> s, o |-> o, k |-> k, n |-> n, c |-> Flat(cur'[s]), g |-> Flat(orig'[s])])
  /\ UNCHANGED <<doc, start>>

Bit(x) == IF x THEN 1 ELSE 0

Add(s, k) ==
  /\ cur' = [cur EXCEPT ![s] = WithKey(@, k)]
  /\ UNCHANGED orig
  /\ More(s, "Add", k, Bit(~HasKey(cur[s], k)))

Drop(s, k) ==
  /\ cur' = [cur EXCEPT ![s] = WithoutKey(@, k)]
  /\ UNCHANGED orig
  /\ More(s, "Remove", k, Bit(HasKey(cur[s], k)))

Save(s) == orig' = [orig EXCEPT ![s] = cur[s]] /\ UNCHANGED cur /\ More(s, "Save", <<>>, 0)

Restore(s) == cur' = [cur EXCEPT ![s] = orig[s]] /\ UNCHANGED orig /\ More(s, "Restore", <<>>, 0)

Next ==
  \E s \in Ids :
    \/ \E k \in Keys : Add(s, k) \/ Drop(s, k)
    \/ Save(s) \/ Restore(s)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------

NoDuplicates ==
  \A s \in Ids : /\ \A i, j \in 1..Len(cur[s]) : cur[s][i] = cur[s][j] => i = j
                 /\ \A i, j \in 1..Len(orig[s]) : orig[s][i] = orig[s][j] => i = j

\* a step on one Scheme does not show in another
Independent == [][\A s \in Ids : (hist' # hist /\ Last(hist').s # s) => cur'[s] = cur[s] /\ orig'[s] = orig[s]]_vars

\* only Save touches what is saved
SavedStays == [][\A s \in Ids : orig'[s] # orig[s] => Last(hist').o = "Save" /\ orig'[s] = cur[s]]_vars

\* order of the remaining keys is kept by every step but Restore
OrderStays ==
  [][\A s \in Ids :
       (hist' # hist /\ Last(hist').o \in {"Add", "Remove"}) =>
          LET both == {k \in Keys : HasKey(cur[s], k) /\ HasKey(cur'[s], k)}
          IN SelectSeq(cur[s], LAMBDA k : k \in both) = SelectSeq(cur'[s], LAMBDA k : k \in both)]_vars

\* the projection has the current keys in order, its own projection is itself,
\* the document fits iff nothing had to be made up, and fitting exactly means fitting
ProjectionExact ==
  \A s \in Ids :
    LET p == ProjectionOf(doc, cur[s]) IN
    /\ p.k = cur[s]
    /\ ProjectionOf(p, cur[s]) = p
    /\ Fits(p, cur[s]) /\ FitsExactly(p, cur[s])
    /\ Fits(doc, cur[s]) => \A j \in 1..Len(cur[s]) : Resolve(p, <<cur[s][j]>>) = Resolve(doc, <<cur[s][j]>>)
    /\ FitsExactly(doc, cur[s]) => Fits(doc, cur[s])
    /\ FitsExactly(doc, cur[s]) /\ ~ExactOpen(doc, cur[s]) => {doc.k[j] : j \in 1..Len(doc.k)} = {cur[s][j] : j \in 1..Len(cur[s])}

---------------------------------------------------------------------------

\* key lists as flat bytes: keys are one byte long here
HistoryVector ==
  [i |-> [s \in Ids |-> Flat(start[s])],
   h |-> hist]

\* a value made up for an absent key: labelled e
MadeUp(p) == [p EXCEPT !.c = [j \in 1..Len(p.c) |-> IF p.c[j] = Str(<<>>) THEN Str(<<101>>) ELSE p.c[j]]]

ProjectVector ==
  LET s == CHOOSE s \in Ids : TRUE
      L == Label(doc)
  IN [k |-> Flat(cur[s]),
      d |-> Tok(L),
      m |-> Tok(MadeUp(ProjectionOf(L, cur[s]))),
      a |-> Bit(Fits(doc, cur[s])),
      x |-> IF ExactOpen(doc, cur[s]) THEN 2 ELSE Bit(FitsExactly(doc, cur[s]))]

Emitted ==
  /\ "History" \in Emit /\ Len(hist) = MaxSteps => PrintT(ToJson(HistoryVector))
  /\ "Project" \in Emit => PrintT(ToJson(ProjectVector))

ListsView == <<lists, doc>>

\* values of the constants, chosen by the configurations
A == <<97>>  B == <<98>>  Z0 == <<48>>
KeysAB == {A, B}
KeysABZ == {A, B, Z0}
One == 1..1
Two == 1..2
Three == 1..3
Empty == {<<>>}
StartsAB == {<<>>, <<A>>, <<A, B>>}
StartsBA == {<<>>, <<B, A>>}
StartA == {<<A>>}
StartsABZ == {<<>>, <<B>>, <<A, B>>, <<Z0, B, A>>}

NoDocs == {Obj(<<>>, <<>>)}
PS == Val("s", <<>>, <<>>, <<>>)
PN == Val("n", <<>>, <<>>, <<>>)
PZ == Val("z", <<>>, <<>>, <<>>)
Kinds == {PS, PN, Obj(<<A>>, <<PN>>), Arr(<<PS, PZ>>)}
DocNames == {A, B, Z0, <<99>>}
NameLists(n) == {ks \in [1..n -> DocNames] : \A i, j \in 1..n : ks[i] = ks[j] => i = j}
Objects(n, K) == {Obj(ks, cs) : ks \in NameLists(n), cs \in [1..n -> K]}
SmallDocs == {Obj(<<>>, <<>>), Arr(<<>>)} \cup Objects(1, Kinds) \cup Objects(2, Kinds)
             \cup Objects(3, {PS, Obj(<<A>>, <<PN>>)})
             \cup {Arr(<<PS>>), Arr(<<PN, PS>>), Arr(<<Obj(<<A>>, <<PS>>)>>)}
MoreDocs == SmallDocs \cup Objects(3, Kinds) \cup Objects(4, {PS, Arr(<<PN>>)})

=============================================================================
