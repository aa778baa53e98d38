------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* JSON documents written token by token: the grammar as a state machine,  *)
(* independent of the parser in JsonText.  Its states are exactly the      *)
(* beginnings of well-formed documents over the given tokens, with every   *)
(* placement of insignificant space; the finished ones are all well-formed *)
(* documents of at most MaxTokens tokens, the others all truncated ones.   *)
(*                                                                         *)
(* Checked: the parser accepts exactly the finished texts; Canon, Indented *)
(* and Render agree; every path reads the right span of the text.          *)
(* Emitted: what reads, edits, Flatten and Indent must give for each text. *)
(***************************************************************************)
EXTENDS JsonTree, Json, TLC

CONSTANTS
  Scalars,     \* texts of scalar values
  MemberNames, \* names of members
  Gaps,        \* pieces of insignificant space
  MaxTokens, MaxGaps,
  Emit,        \* families of vectors
  NewText,     \* text of the value edits write
  NewName

VARIABLES
  txt,    \* the text so far
  stk,    \* open containers: [t, used names]
  mode,   \* what may come next
  toks, gaps

vars == <<txt, stk, mode, toks, gaps>>

Init == txt = <<>> /\ stk = <<>> /\ mode = "root" /\ toks = 0 /\ gaps = 0

\* one token for every open container is reserved for closing it
Room == toks + Len(stk) < MaxTokens
Put(x) == txt' = txt \o x /\ toks' = toks + 1 /\ UNCHANGED gaps

Behind == IF stk = <<>> THEN "done" ELSE "next"
BehindClosed == IF Len(stk) = 1 THEN "done" ELSE "next"

ValueWanted == mode \in {"root", "val", "first"}

OpenBracket(t) ==
  /\ ValueWanted
  /\ toks + Len(stk) + 1 < MaxTokens
  /\ Put(IF t = "o" THEN <<LBRACE>> ELSE <<LBRACK>>)
  /\ stk' = Append(stk, [t |-> t, u |-> {}])
  /\ mode' = IF t = "o" THEN "mem" ELSE "first"

Scalar(x) ==
  /\ mode \in {"val", "first"}
  /\ Room
  /\ Put(x)
  /\ mode' = Behind
  /\ UNCHANGED stk

Name(x) ==
  /\ mode \in {"mem", "name"}
  /\ toks + Len(stk) + 2 < MaxTokens
  /\ x \notin Last(stk).u
  /\ Put(Quoted(x))
  /\ stk' = [stk EXCEPT ![Len(stk)] = [@ EXCEPT !.u = @ \cup {x}]]
  /\ mode' = "colon"

Colon ==
  /\ mode = "colon"
  /\ toks + Len(stk) + 1 < MaxTokens
  /\ Put(<<COLON>>) /\ mode' = "val" /\ UNCHANGED stk

Comma ==
  /\ mode = "next"
  /\ toks + Len(stk) + 1 < MaxTokens
  /\ Put(<<COMMA>>)
  /\ mode' = IF Last(stk).t = "o" THEN "name" ELSE "val"
  /\ UNCHANGED stk

CloseBracket ==
  /\ stk # <<>>
  /\ mode \in {"next", "first", "mem"}
  /\ Put(IF Last(stk).t = "o" THEN <<RBRACE>> ELSE <<RBRACK>>)
  /\ stk' = Front(stk)
  /\ mode' = BehindClosed

Space(g) ==
  /\ gaps < MaxGaps
  /\ (IF txt = <<>> THEN TRUE ELSE ~IsSpace(Last(txt)))
  /\ txt' = txt \o g /\ gaps' = gaps + 1
  /\ UNCHANGED <<stk, mode, toks>>

Next ==
  \/ \E t \in {"o", "a"} : OpenBracket(t)
  \/ \E x \in Scalars : Scalar(x)
  \/ \E x \in MemberNames : Name(x)
  \/ Colon \/ Comma \/ CloseBracket
  \/ \E g \in Gaps : Space(g)

Spec == Init /\ [][Next]_vars

Finished == mode = "done"

---------------------------------------------------------------------------

ParserAgrees == Parse(txt).ok <=> Finished

BalanceAgrees == Unbalanced(txt) <=> stk # <<>>

Tree0 == Ast(txt, Parse(txt).root)

RenderAgrees ==
  Finished => /\ Render(Tree0) = Canon(txt)
              /\ Canon(Indented(Tree0)) = Canon(txt)
              /\ Canon(Canon(txt)) = Canon(txt)
              /\ Ast(Canon(txt), Parse(Canon(txt)).root) = Tree0
              /\ LET i == Indented(Tree0) IN Parse(i).ok /\ Indented(Ast(i, Parse(i).root)) = i
              /\ UniqueNames(Tree0)

\* what a path addresses, in the text
RECURSIVE CstAt(_, _, _)
CstAt(c, v, p) ==
  IF p = <<>> THEN c
  ELSE LET n == ChildAt(v, p[1]) IN CstAt(c.c[n], v.c[n], Tail(p))

Inside(c) == IF c.t = "s" THEN SubSeq(txt, c.s + 1, c.e - 1) ELSE SubSeq(txt, c.s, c.e)

SpansAgree ==
  Finished =>
    LET v == Tree0
        root == Parse(txt).root
        s == PathsOf(v)
    IN \A j \in 1..Len(s) :
         LET c == CstAt(root, v, s[j])
             x == Resolve(v, s[j]).v
         IN Canon(RawText(txt, c)) = Render(x)

---------------------------------------------------------------------------
(* Emission.                                                               *)

ReadsOf(v, root) ==
  LET s == PathsOf(v)
  IN [j \in 1..Len(s) |->
        LET c == CstAt(root, v, s[j])
            x == Resolve(v, s[j]).v
        IN [p |-> s[j], c |-> {OK}, t |-> TypeName(x),
            x |-> IF s[j] = <<>> THEN txt ELSE Inside(c),
            k |-> [i \in 1..Len(x.c) |-> ChildName(x, i)],
            v |-> [i \in 1..Len(x.c) |-> Inside(c.c[i])]]]

Probe == MemberNames \cup {NewName, <<48>>, <<49>>, <<45, 49>>}

MissesOf(v) ==
  LET s == PathsOf(v)
      valid == {s[j] : j \in 1..Len(s)}
      off == {Append(p, e) : p \in valid, e \in Probe} \ valid
      m == off \cup {Append(q, <<48>>) : q \in off}
  IN {[p |-> q, c |-> Resolve(v, q).codes] : q \in m}

NewVal == LET r == Parse(NewText) IN Ast(NewText, r.root)

EditRec(o, p, k, n, r) ==
  [o |-> o, p |-> p, k |-> k, n |-> n, c |-> r.codes, r |-> IF r.codes = {OK} THEN Render(r.doc) ELSE <<>>]

EditsOf(kind, v) ==
  LET s == PathsOf(v)
      P == {s[j] : j \in 1..Len(s)}
      K == MemberNames \cup {NewName}
  IN CASE kind = "Set" -> {EditRec("Set", p, <<>>, 0, OpSet(v, p, NewVal)) : p \in P}
       [] kind = "SetKey" -> {EditRec("SetKey", p, k, 0, OpSetKey(v, p, k)) : p \in P, k \in K}
       [] kind = "AddKeyValue" -> {EditRec("AddKeyValue", p, k, 0, OpAddKeyValue(v, p, k, NewVal)) : p \in P, k \in K}
       [] kind = "Add" -> {EditRec("Add", p, <<>>, 0, OpAdd(v, p, NewVal)) : p \in P}
       [] kind = "Insert" -> {EditRec("Insert", p, <<>>, n, OpInsert(v, p, n, NewVal)) : p \in P, n \in 0..2}
       [] kind = "Delete" -> {EditRec("Delete", p, <<>>, 0, OpDelete(v, p)) : p \in P}
       [] kind = "Store" -> {EditRec("Store", p, k, 0, OpStore(v, p, k, NewVal)) : p \in P, k \in K}

EditKinds == {"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete", "Store"}

Vector ==
  IF Finished
  THEN LET root == Parse(txt).root
           v == Ast(txt, root)
           ls == LeavesOf(v)
           ts == TreeOf(v, 0)
       IN [d |-> txt, fin |-> 1, u |-> 0, w |-> NewText,
           g |-> IF "Hit" \in Emit THEN ReadsOf(v, root) ELSE <<>>,
           m |-> IF "Miss" \in Emit THEN MissesOf(v) ELSE {},
           e |-> UNION {EditsOf(k, v) : k \in EditKinds \cap Emit},
           f |-> IF "Format" \in Emit THEN Canon(txt) ELSE <<>>,
           i |-> IF "Format" \in Emit THEN Indented(v) ELSE <<>>,
           l |-> IF "Walk" \in Emit THEN [j \in 1..Len(ls) |-> [p |-> ls[j].p, v |-> ls[j].v.v]] ELSE <<>>,
           t |-> IF "Tree" \in Emit THEN [j \in 1..Len(ts) |-> [n |-> ts[j].n, l |-> ts[j].l]] ELSE <<>>]
  ELSE [d |-> txt, fin |-> 0, u |-> IF Unbalanced(txt) THEN 1 ELSE 0]

Emitted ==
  Emit = {} \/ ~(Finished \/ "Cut" \in Emit) \/ PrintT(ToJson(Vector))

\* values of the constants, chosen by the configurations
ScalarsA == {<<49>>, <<34, 93, 34>>, <<34, 92, 34, 34>>}                          \* 1 "]" "\""
ScalarsB == {<<45, 50>>, <<34, 92, 92, 34>>, TRUETEXT, <<34, 34>>}                \* -2 "\\" true ""
ScalarsC == {<<34, 44, 34>>, NULLTEXT, <<34, 58, 123, 34>>, <<34, 32, 34>>}       \* "," null ":{" " "
NamesA == {<<97>>, <<48>>}                                                        \* a 0
NamesB == {<<125>>, <<92, 34>>}                                                   \* } \"
NamesC == {<<97>>, <<97, 92, 92>>, <<58>>}                                        \* a a\\ :
GapsA == {<<32>>}
GapsB == {<<10, 9>>}
GapsC == {<<13>>, <<32, 32>>}
One == <<49>>
NewKey == <<122>>
NewObj == <<123, 34, 97, 34, 58, 91, 93, 125>>                                    \* {"a":[]}

=============================================================================
