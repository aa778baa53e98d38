-------------------------------- MODULE Jin --------------------------------
(***************************************************************************)
(* The document as a state machine: one action per edit of the library.    *)
(* A successful edit changes doc to what the edit means on the tree; a     *)
(* failing one leaves doc alone and reports one of its error codes.        *)
(* The same machine describes a []byte handled with the interpreter        *)
(* functions, a JO and a Parser: they promise the same history semantics.  *)
(*                                                                         *)
(* doc   the abstract document                                             *)
(* act   the last edit, its arguments and its reply (an observation: it is *)
(*       hidden by VIEW in the exhaustive configurations)                  *)
(***************************************************************************)
EXTENDS JsonTree, TLC

CONSTANTS
  Names,      \* member names edits may use
  PathElems,  \* path elements edits may use, besides those of the document
  Indices,    \* indices Insert may use
  Values,     \* values edits may write
  MaxNodes, MaxDepth   \* bounds of the exhaustive exploration

VARIABLES doc, act

vars == <<doc, act>>

RECURSIVE HasPath(_, _)
HasPath(v, p) == Resolve(v, p).ok

ValidPaths(d) == LET s == PathsOf(d) IN {s[i] : i \in 1..Len(s)}

\* paths that address nothing: one step off every value, or further
MissPaths(d) ==
  LET off == {Append(p, e) : p \in ValidPaths(d), e \in PathElems} \ ValidPaths(d)
  IN off \cup {Append(q, e) : q \in off, e \in {CHOOSE x \in Names : TRUE, <<48>>}}

Paths(d) == ValidPaths(d) \cup MissPaths(d)

Reply(name, p, k, n, w, r) ==
  /\ doc' = r.doc
  /\ act' = [op |-> name, p |-> p, k |-> k, n |-> n, w |-> w, codes |-> r.codes]

Set(p, w) == Reply("Set", p, <<>>, 0, w, OpSet(doc, p, w))
SetKey(p, k) == Reply("SetKey", p, k, 0, Nothing, OpSetKey(doc, p, k))
AddKeyValue(p, k, w) == Reply("AddKeyValue", p, k, 0, w, OpAddKeyValue(doc, p, k, w))
Add(p, w) == Reply("Add", p, <<>>, 0, w, OpAdd(doc, p, w))
Insert(p, n, w) == Reply("Insert", p, <<>>, n, w, OpInsert(doc, p, n, w))
Delete(p) == Reply("Delete", p, <<>>, 0, Nothing, OpDelete(doc, p))
Store(p, k, w) == Reply("Store", p, k, 0, w, OpStore(doc, p, k, w))

Init == /\ doc \in {Obj(<<>>, <<>>), Arr(<<>>)}
        /\ act = [op |-> "Init", p |-> <<>>, k |-> <<>>, n |-> 0, w |-> Nothing, codes |-> {OK}]

Next ==
  \E p \in Paths(doc) :
    \/ Delete(p)
    \/ \E k \in Names : SetKey(p, k)
    \/ \E w \in Values :
         \/ Set(p, w)
         \/ Add(p, w)
         \/ \E n \in Indices : Insert(p, n, w)
         \/ \E k \in Names : AddKeyValue(p, k, w) \/ Store(p, k, w)

Spec == Init /\ [][Next]_vars

Bounded == Nodes(doc) <= MaxNodes /\ Depth(doc) <= MaxDepth

---------------------------------------------------------------------------
(* Properties.                                                             *)

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

TypeOK == UniqueNames(doc) /\ doc.t \in {"o", "a"}

\* every path of a document is the path of one value only, every other path misses
PathsExact ==
  LET s == PathsOf(doc) IN
  /\ \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
  /\ Len(s) = Nodes(doc)
  /\ \A p \in ValidPaths(doc) : Resolve(doc, p).ok
  /\ \A p \in MissPaths(doc) : ~Resolve(doc, p).ok /\ Resolve(doc, p).codes \subseteq AnyError

New == Str(<<33>>)    \* a value no document has

\* Set: the path has the new value, paths not below or above it keep theirs
SetFrame ==
  \A p \in Paths(doc) :
    LET r == OpSet(doc, p, New) IN
    IF p # <<>> /\ Resolve(doc, p).ok
    THEN /\ r.codes = {OK}
         /\ Resolve(r.doc, p).v = New
         /\ \A q \in ValidPaths(doc) :
              ~IsPrefixOf(p, q) /\ ~IsPrefixOf(q, p) => Resolve(r.doc, q) = Resolve(doc, q)
    ELSE r.codes \subseteq AnyError /\ r.doc = doc

SetKeyFrame ==
  \A p \in Paths(doc), k \in Names :
    LET r == OpSetKey(doc, p, k) IN
    IF r.codes = {OK}
    THEN LET q == Append(Front(p), k) IN
         /\ Resolve(r.doc, q) = Resolve(doc, p)
         /\ ~Resolve(r.doc, p).ok
         /\ OpSetKey(r.doc, q, Last(p)).doc = doc
         /\ UniqueNames(r.doc)
    ELSE r.doc = doc

AddFrame ==
  \A p \in Paths(doc) :
    LET r == OpAdd(doc, p, New) IN
    IF r.codes = {OK}
    THEN LET n == Len(Resolve(doc, p).v.c)
             q == Append(p, DecimalOf(n)) IN
         /\ Resolve(r.doc, q).v = New
         /\ OpDelete(r.doc, q).doc = doc
         /\ \A z \in ValidPaths(doc) : ~IsPrefixOf(z, p) => Resolve(r.doc, z) = Resolve(doc, z)
    ELSE r.doc = doc

AddKeyValueFrame ==
  \A p \in Paths(doc), k \in Names :
    LET r == OpAddKeyValue(doc, p, k, New) IN
    IF r.codes = {OK}
    THEN /\ Resolve(r.doc, Append(p, k)).v = New
         /\ Last(Resolve(r.doc, p).v.k) = k
         /\ OpDelete(r.doc, Append(p, k)).doc = doc
         /\ UniqueNames(r.doc)
         /\ \A z \in ValidPaths(doc) : ~IsPrefixOf(z, p) => Resolve(r.doc, z) = Resolve(doc, z)
    ELSE /\ r.doc = doc
         /\ Resolve(doc, p).ok /\ Resolve(doc, p).v.t = "o" =>
              r.codes = {KeyAlreadyExist} /\ Resolve(doc, Append(p, k)).ok

InsertFrame ==
  \A p \in Paths(doc), n \in Indices :
    LET r == OpInsert(doc, p, n, New) IN
    IF r.codes = {OK}
    THEN LET before == Resolve(doc, p).v.c
             after == Resolve(r.doc, p).v.c IN
         /\ Len(after) = Len(before) + 1
         /\ after[n + 1] = New
         /\ \A i \in 1..Len(before) : after[IF i <= n THEN i ELSE i + 1] = before[i]
         /\ OpDelete(r.doc, Append(p, DecimalOf(n))).doc = doc
    ELSE r.doc = doc

DeleteFrame ==
  \A p \in Paths(doc) :
    LET r == OpDelete(doc, p) IN
    IF r.codes = {OK}
    THEN LET up == Front(p)
             b == Resolve(doc, up).v
             a == Resolve(r.doc, up).v
             i == ChildAt(b, Last(p)) IN
         /\ Len(a.c) = Len(b.c) - 1
         /\ \A j \in 1..Len(a.c) : a.c[j] = b.c[IF j < i THEN j ELSE j + 1]
         /\ b.t = "o" => ~Resolve(r.doc, p).ok
         /\ Nodes(r.doc) = Nodes(doc) - Nodes(Resolve(doc, p).v)
         /\ \A z \in ValidPaths(doc) : ~IsPrefixOf(up, z) /\ ~IsPrefixOf(z, up) =>
              Resolve(r.doc, z) = Resolve(doc, z)
    ELSE r.doc = doc

StoreFrame ==
  \A p \in Paths(doc), k \in Names :
    LET r == OpStore(doc, p, k, New) IN
    IF r.codes = {OK}
    THEN /\ Resolve(r.doc, Append(p, k)).v = New
         /\ OpStore(r.doc, p, k, New) = r
         /\ UniqueNames(r.doc)
         /\ r.doc \in {OpSet(doc, Append(p, k), New).doc, OpAddKeyValue(doc, p, k, New).doc}
    ELSE r.doc = doc

\* Walk's leaves are exactly the scalars, each at a path that resolves to it
LeavesExact ==
  LET ls == LeavesOf(doc) IN
  /\ \A i \in 1..Len(ls) : Resolve(doc, ls[i].p) = Found(ls[i].v)
  /\ {ls[i].p : i \in 1..Len(ls)} = {p \in ValidPaths(doc) : IsScalar(Resolve(doc, p).v)}
  /\ \A i, j \in 1..Len(ls) : i # j => ls[i].p # ls[j].p

\* Tree lists every node below the root once, in the order of the document
TreeExact ==
  LET t == TreeOf(doc, 0)
      s == PathsOf(doc) IN
  /\ Len(t) = Len(s) - 1
  /\ \A i \in 1..Len(t) : t[i].l = Last(s[i + 1]) /\ t[i].n = Len(s[i + 1]) - 1

\* action properties of every history
FailuresChangeNothing == [][act'.codes # {OK} => doc' = doc]_vars
RepliesDefined == [][act'.codes = {OK} \/ act'.codes \subseteq AnyError]_vars
StaysWellFormed == [][UniqueNames(doc')]_vars

=============================================================================
