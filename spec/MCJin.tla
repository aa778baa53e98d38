------------------------------- MODULE MCJin -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Jin within small bounds, and emission of what *)
(* the specification says about every visited document, as vectors for the *)
(* conformance driver (one JSON line per state, file given by -userFile).  *)
(*                                                                         *)
(* States carry no payloads.  For emission the leaves of the document are  *)
(* labelled 1..9 in document order, so that the vectors tell apart equal   *)
(* kinds at different places; the value an edit writes is labelled v.      *)
(* Documents are emitted as tokens: { } [ ] : , name, kind+label.          *)
(***************************************************************************)
EXTENDS Jin, Tokens, Json

CONSTANT Emit     \* which families of vectors to emit

\* values for the constants of Jin, chosen by the configurations
a == <<97>>  b == <<98>>  c0 == <<48>>  c1 == <<49>>  c2 == <<50>>
Names2 == {a, b}
Names3 == {a, b, c0}
Elems2 == {a, b, c0, c1, c2}
Small == 0..2
Signed == -1..3
VStr == Val("s", <<>>, <<>>, <<>>)
VNum == Val("n", <<>>, <<>>, <<>>)
VBool == Val("b", <<>>, <<>>, <<>>)
VNull == Val("z", <<>>, <<>>, <<>>)
Values2 == {VStr, VNum, Arr(<<>>), Obj(<<>>, <<>>)}
Values4 == Values2 \cup {VBool, VNull}

\* edits along paths that address something; those that do not are stuttering
\* steps (FailureIsStutter below covers every one of them in every state)
MCNext ==
  /\ \E p \in ValidPaths(doc) :
       \/ Delete(p)
       \/ \E k \in Names : SetKey(p, k)
       \/ \E w \in Values :
            \/ Set(p, w)
            \/ Add(p, w)
            \/ \E n \in Indices : Insert(p, n, w)
            \/ \E k \in Names : AddKeyValue(p, k, w) \/ Store(p, k, w)
  /\ Bounded'
MCSpec == Init /\ [][MCNext]_vars

Edit(name, p, k, n, w, r) ==
  [o |-> name, p |-> Flat(p), k |-> k, n |-> n, w |-> IF w = Nothing THEN <<>> ELSE Tok(w),
   c |-> r.codes, r |-> IF r.codes = {OK} THEN Tok(r.doc) ELSE <<>>]

\* all edits of one kind on the labelled document L, writing values from W
EditsOn(kind, L, P, W) ==
  CASE kind = "Set" -> {Edit("Set", p, <<>>, 0, w, OpSet(L, p, w)) : p \in P, w \in W}
    [] kind = "SetKey" -> {Edit("SetKey", p, k, 0, Nothing, OpSetKey(L, p, k)) : p \in P, k \in Names}
    [] kind = "AddKeyValue" -> {Edit("AddKeyValue", p, k, 0, w, OpAddKeyValue(L, p, k, w)) : p \in P, k \in Names, w \in W}
    [] kind = "Add" -> {Edit("Add", p, <<>>, 0, w, OpAdd(L, p, w)) : p \in P, w \in W}
    [] kind = "Insert" -> {Edit("Insert", p, <<>>, n, w, OpInsert(L, p, n, w)) : p \in P, n \in Indices, w \in W}
    [] kind = "Delete" -> {Edit("Delete", p, <<>>, 0, Nothing, OpDelete(L, p)) : p \in P}
    [] kind = "Store" -> {Edit("Store", p, k, 0, w, OpStore(L, p, k, w)) : p \in P, k \in Names, w \in W}
    [] OTHER -> {}

EditsOf(kind, L, W) == EditsOn(kind, L, Paths(L), W)

EditKinds == {"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete", "Store"}

\* what reads see at p
ReadAt(L, p) ==
  LET r == Resolve(L, p) IN
  [p |-> Flat(p), c |-> r.codes,
   v |-> IF r.ok THEN Tok(r.v) ELSE <<>>,
   t |-> IF r.ok THEN TypeName(r.v) ELSE ""]

\* the transitions of the machine: every successful edit with every admissible
\* value, and every failing one (with one value), also one step off the document
OffPaths(L) == {Append(p, e) : p \in ValidPaths(L), e \in {b, c1}} \ ValidPaths(L)
Steps(L) ==
  UNION {{e \in EditsOn(k, L, ValidPaths(L), {LabelNew(w) : w \in Values}) : e.c = {OK}} : k \in EditKinds}
  \cup UNION {{e \in EditsOn(k, L, ValidPaths(L) \cup OffPaths(L), {LabelNew(VNum)}) : e.c # {OK}} : k \in EditKinds}

Vector(L) ==
  [d |-> Tok(L),
   e |-> UNION {EditsOf(k, L, {Opaque}) : k \in EditKinds \cap Emit},
   g |-> {ReadAt(L, p) : p \in (IF "Hit" \in Emit THEN ValidPaths(L) ELSE {}) \cup (IF "Miss" \in Emit THEN MissPaths(L) ELSE {})},
   s |-> IF "Step" \in Emit THEN Steps(L) ELSE {},
   l |-> IF "Walk" \in Emit THEN LET ls == LeavesOf(L) IN [i \in 1..Len(ls) |-> [p |-> Flat(ls[i].p), v |-> Tok(ls[i].v)]] ELSE <<>>,
   t |-> IF "Tree" \in Emit THEN LET ts == TreeOf(L, 0) IN [i \in 1..Len(ts) |-> <<ts[i].n, ts[i].l[1]>>] ELSE <<>>]

\* an invariant is evaluated once per distinct state: that is where we emit
Emitted == Emit = {} \/ PrintT(ToJson(Vector(Label(doc))))

DocView == doc

FailureIsStutter ==
  \A p \in MissPaths(doc) :
    LET rs == {OpSet(doc, p, New), OpAdd(doc, p, New), OpDelete(doc, p)}
              \cup {OpInsert(doc, p, n, New) : n \in Indices}
              \cup {OpSetKey(doc, p, k) : k \in Names}
              \cup {OpAddKeyValue(doc, p, k, New) : k \in Names}
    IN \A r \in rs : r.codes # {OK} /\ r.codes \subseteq AnyError /\ r.doc = doc

=============================================================================
