------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Several clients (goroutines) of the library at once.  Each has its own  *)
(* buffer with a document, which it uses again for other documents, its    *)
(* own JO, Parser and Scheme; all share one document and one Parser they   *)
(* only read.  An iteration stays open between its callbacks: its client   *)
(* makes other calls from within a callback, other clients do meanwhile.   *)
(*                                                                         *)
(* A call's reply is Do's: a function of the client's own state.  Mine     *)
(* says so about every schedule; the driver runs the schedules on real     *)
(* goroutines, in lockstep and set free.                                   *)
(***************************************************************************)
EXTENDS Tokens, Json, TLC

CONSTANTS
  Procs,      \* 1..n
  Kinds,      \* which calls clients make
  Edits,      \* edits they make, a sequence
  MaxSteps,   \* calls of all clients together
  MaxOpen,    \* iterations one client has open
  MaxNodes,   \* of a document
  Random,     \* one call at random (for simulation), not all possible ones
  Emit

VARIABLES st,      \* the clients' states
          hist     \* the calls so far, with their replies

vars == <<st, hist>>

a == <<97>>  b == <<98>>  c0 == <<48>>  c1 == <<49>>
S(l) == Val("s", <<l>>, <<>>, <<>>)
N(l) == Val("n", <<l>>, <<>>, <<>>)
B(l) == Val("b", <<l>>, <<>>, <<>>)
Z(l) == Val("z", <<l>>, <<>>, <<>>)

\* documents clients put into their buffers; the first is the shared one
D1 == Obj(<<a, b>>, <<S(49), Arr(<<N(50), Obj(<<a>>, <<B(51)>>)>>)>>)
D2 == Arr(<<Obj(<<b>>, <<N(52)>>), S(53), Z(54)>>)
D3 == Obj(<<b, a>>, <<N(55), Obj(<<a>>, <<Arr(<<S(56)>>)>>)>>)
D4 == Obj(<<a, b>>, <<S(71), Arr(<<N(72), Obj(<<a>>, <<B(73)>>)>>)>>)   \* D1 with other leaves
Docs == <<D1, D4, D2, D3>>
Shared == D1
Made == Obj(<<a, b>>, <<S(65), N(66)>>)    \* what builders are asked for

E(o, p, k, n, w) == [o |-> o, p |-> p, k |-> k, n |-> n, w |-> w]
Edits3 == <<E("Set", <<a>>, <<>>, 0, S(65)), E("Delete", <<b>>, <<>>, 0, Nothing), E("Add", <<b>>, <<>>, 0, N(66))>>
Edits9 == Edits3 \o
  <<E("Delete", <<c0>>, <<>>, 0, Nothing), E("AddKeyValue", <<>>, b, 0, Z(67)), E("Insert", <<>>, <<>>, 1, B(68)),
    E("SetKey", <<a>>, b, 0, Nothing), E("Set", <<b>>, <<>>, 0, Arr(<<S(69)>>)), E("Store", <<>>, a, 0, N(70))>>
KindsRead == {"LookShared", "LookSharedParser", "LookBuf", "Refill", "Begin", "Walk", "Step", "Stop"}
KindsEdit == {"LookShared", "LookJO", "LookParser", "EditJO", "EditParser", "EditBuf"}
KindsMix == {"Begin", "Step", "EditJO", "EditBuf", "LookBuf", "Build", "Project", "Key"}
KindsAll == KindsRead \cup KindsEdit \cup KindsMix
Two == 1..2  Three == 1..3

---------------------------------------------------------------------------
(* One client: what a call does and answers.  Own state only.              *)

Begun == [buf |-> 1, d |-> D1, jo |-> D1, par |-> D1, keys |-> <<a>>, open |-> <<>>]

OpOf(d, e) ==
  CASE e.o = "Set" -> OpSet(d, e.p, e.w)
    [] e.o = "SetKey" -> OpSetKey(d, e.p, e.k)
    [] e.o = "AddKeyValue" -> OpAddKeyValue(d, e.p, e.k, e.w)
    [] e.o = "Add" -> OpAdd(d, e.p, e.w)
    [] e.o = "Insert" -> OpInsert(d, e.p, e.n, e.w)
    [] e.o = "Delete" -> OpDelete(d, e.p)
    [] e.o = "Store" -> OpStore(d, e.p, e.k, e.w)

Answer(cs, d) == [c |-> cs, d |-> Tok(d), p |-> <<>>, x |-> 0]
Gone == [c |-> {OK}, d |-> <<>>, p |-> <<>>, x |-> 1]       \* an iteration that has ended
Item(i) == [c |-> {OK}, d |-> Tok(i.v), p |-> Flat(i.p), x |-> 0]

\* what iterations visit: the root's children, or all leaves
Children(d) == [i \in 1..Len(d.c) |-> [p |-> <<ChildName(d, i)>>, v |-> d.c[i]]]

Source(s, src) ==
  CASE src = "shared" -> Shared [] src = "sharedparser" -> Shared
    [] src = "buf" -> s.d [] src = "jo" -> s.jo [] src = "par" -> s.par

SomeOpenOn(s, src) == \E i \in 1..Len(s.open) : s.open[i].src = src

Top(s) == s.open[Len(s.open)]

\* the next item of the innermost iteration, or its end
Advance(s) ==
  IF Top(s).i < Len(Top(s).items)
  THEN [s |-> [s EXCEPT !.open[Len(s.open)].i = @ + 1], r |-> Item(Top(s).items[Top(s).i + 1])]
  ELSE [s |-> [s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)], r |-> Gone]

Opened(s, src, items) == Advance([s EXCEPT !.open = Append(@, [src |-> src, items |-> items, i |-> 0])])

IndexIn(ks, k) == LET h == {i \in 1..Len(ks) : ks[i] = k} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
Toggled(ks, k) == LET i == IndexIn(ks, k) IN IF i = 0 THEN Append(ks, k) ELSE RemoveNth(ks, i)
Projected(d, ks) ==
  Obj(ks, [i \in 1..Len(ks) |-> LET j == ChildAt(d, ks[i]) IN IF j = 0 THEN S(101) ELSE d.c[j]])

Do(s, x) ==
  CASE x.o = "Look" -> [s |-> s, r |-> Answer({OK}, Source(s, x.s))]
    [] x.o = "Refill" -> LET n == (s.buf % Len(Docs)) + 1 IN [s |-> [s EXCEPT !.buf = n, !.d = Docs[n]], r |-> Answer({OK}, Docs[n])]
    [] x.o = "Edit" ->
         LET r == OpOf(Source(s, x.s), Edits[x.e]) IN
         [s |-> CASE x.s = "buf" -> [s EXCEPT !.d = r.doc] [] x.s = "jo" -> [s EXCEPT !.jo = r.doc] [] x.s = "par" -> [s EXCEPT !.par = r.doc],
          r |-> Answer(r.codes, r.doc)]
    [] x.o = "Begin" -> Opened(s, x.s, Children(Source(s, x.s)))
    [] x.o = "Walk" -> Opened(s, x.s, LeavesOf(Source(s, x.s)))
    [] x.o = "Step" -> Advance(s)
    [] x.o = "Stop" -> [s |-> [s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)], r |-> Gone]
    [] x.o = "Build" -> [s |-> s, r |-> Answer({OK}, Made)]
    [] x.o = "Key" -> LET ks == Toggled(s.keys, Edits[x.e].p[1]) IN [s |-> [s EXCEPT !.keys = ks], r |-> Answer({OK}, Obj(ks, [i \in 1..Len(ks) |-> S(101)]))]
    [] x.o = "Project" -> [s |-> s, r |-> Answer({OK}, Projected(Shared, s.keys))]

Call(o, src, e) == [o |-> o, s |-> src, e |-> e]

Small(d) == Nodes(d) <= MaxNodes

\* calls a client in state s may make
CallsOf(s) ==
  {Call("Look", src, 0) : src \in
      (IF "LookShared" \in Kinds THEN {"shared"} ELSE {}) \cup (IF "LookSharedParser" \in Kinds THEN {"sharedparser"} ELSE {})
      \cup (IF "LookBuf" \in Kinds THEN {"buf"} ELSE {}) \cup (IF "LookJO" \in Kinds THEN {"jo"} ELSE {})
      \cup (IF "LookParser" \in Kinds THEN {"par"} ELSE {})}
  \cup (IF "Refill" \in Kinds /\ ~SomeOpenOn(s, "buf") THEN {Call("Refill", "buf", 0)} ELSE {})
  \cup {Call("Edit", src, i) : src \in
      (IF "EditBuf" \in Kinds /\ ~SomeOpenOn(s, "buf") THEN {"buf"} ELSE {}) \cup (IF "EditJO" \in Kinds THEN {"jo"} ELSE {}),
      i \in {i \in 1..Len(Edits) : Small(OpOf(s.jo, Edits[i]).doc) /\ Small(OpOf(s.d, Edits[i]).doc)}}
  \cup (IF "EditParser" \in Kinds THEN {Call("Edit", "par", i) : i \in {i \in 1..Len(Edits) : Edits[i].o # "Store" /\ Small(OpOf(s.par, Edits[i]).doc)}} ELSE {})
  \cup (IF Len(s.open) < MaxOpen
        THEN {Call(o, src, 0) : o \in Kinds \cap {"Begin", "Walk"}, src \in {"shared", "buf", "jo"}} ELSE {})
  \cup (IF s.open # <<>> THEN {Call(o, Top(s).src, 0) : o \in Kinds \cap {"Step", "Stop"}} ELSE {})
  \cup (IF "Build" \in Kinds THEN {Call("Build", "", 0)} ELSE {})
  \cup (IF "Project" \in Kinds THEN {Call("Project", "shared", 0)} ELSE {})
  \cup (IF "Key" \in Kinds THEN {Call("Key", "", i) : i \in {1, 2}} ELSE {})

---------------------------------------------------------------------------
(* All of them.                                                            *)

Started == {hist[i].p : i \in 1..Len(hist)}

Init == st = [p \in Procs |-> Begun] /\ hist = <<>>

\* all calls, or one: some kind of call, then one of that kind
Considered(xs) ==
  IF ~Random THEN xs
  ELSE UNION {{RandomElement({x \in xs : x.o = o})} : o \in {RandomElement({x.o : x \in xs})}}

\* clients are alike: they start in order
Act(p) ==
  /\ Len(hist) < MaxSteps
  /\ p = 1 \/ p - 1 \in Started
  /\ \E x \in Considered(CallsOf(st[p])) :
       LET d == Do(st[p], x) IN
       /\ st' = [st EXCEPT ![p] = d.s]
       /\ hist' = Append(hist, [p |-> p, x |-> x, r |-> d.r])

Next == \E p \in (IF Random THEN {RandomElement({q \in Procs : q = 1 \/ q - 1 \in Started})} ELSE Procs) : Act(p)
Spec == Init /\ [][Next]_vars

\* what p's calls alone, one after the other, lead to and answer
RECURSIVE Alone(_, _, _)
Alone(s, h, p) ==
  IF h = <<>> THEN [s |-> s, ok |-> TRUE]
  ELSE IF h[1].p # p THEN Alone(s, Tail(h), p)
  ELSE LET d == Do(s, h[1].x) IN
       IF d.r # h[1].r THEN [s |-> s, ok |-> FALSE] ELSE Alone(d.s, Tail(h), p)

Mine == \A p \in Procs : LET r == Alone(Begun, hist, p) IN r.ok /\ r.s = st[p]

Alive == \A p \in Procs : UniqueNames(st[p].jo) /\ UniqueNames(st[p].par) /\ UniqueNames(st[p].d) /\ Len(st[p].open) <= MaxOpen

---------------------------------------------------------------------------
(* Vectors: every document the clients can have, with all reads; and every *)
(* schedule of the full length.                                            *)

RECURSIVE Reach(_)
Reach(ds) ==
  LET more == ds \cup {d \in {OpOf(d, Edits[i]).doc : d \in ds, i \in 1..Len(Edits)} : Small(d)}
  IN IF more = ds THEN ds ELSE Reach(more)

Valid(d) == LET ps == PathsOf(d) IN {ps[i] : i \in 1..Len(ps)}
Off(d) == {Append(p, e) : p \in Valid(d), e \in {a, b, c0, c1}} \ Valid(d)

Reads(d) ==
  [d |-> Tok(d),
   g |-> {LET r == Resolve(d, p) IN
          [p |-> Flat(p), c |-> r.codes, v |-> IF r.ok THEN Tok(r.v) ELSE <<>>, t |-> IF r.ok THEN TypeName(r.v) ELSE ""]
          : p \in Valid(d) \cup Off(d)}]

Table ==
  [t |-> {Reads(d) : d \in Reach({Docs[i] : i \in 1..Len(Docs)})},
   i |-> [i \in 1..Len(Docs) |-> Tok(Docs[i])],
   e |-> [i \in 1..Len(Edits) |-> [o |-> Edits[i].o, p |-> Flat(Edits[i].p), k |-> Edits[i].k, n |-> Edits[i].n,
                                   w |-> IF Edits[i].w = Nothing THEN <<>> ELSE Tok(Edits[i].w)]]]

Schedule == [h |-> [i \in 1..Len(hist) |->
  LET h == hist[i] IN [p |-> h.p, o |-> h.x.o, s |-> h.x.s, e |-> h.x.e, c |-> h.r.c, d |-> h.r.d, n |-> h.r.p, x |-> h.r.x]]]

ASSUME TLCSet(1, 0)

Emitted ==
  \/ Emit = {}
  \/ /\ hist = <<>> => (TLCGet(1) = 1 \/ (PrintT(ToJson(Table)) /\ TLCSet(1, 1)))
     /\ Len(hist) = MaxSteps => PrintT(ToJson(Schedule))

=============================================================================
