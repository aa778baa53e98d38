------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded behaviour of the real library.                   *)
(*                                                                         *)
(* A log is a sequence of sessions; a session begins with an event that    *)
(* introduces a document (or a Scheme) and goes on with calls on it.  Every*)
(* event carries the call's name, arguments, error code and result.  The   *)
(* state of this machine is the document the specification says the code   *)
(* must be holding: its text, its concrete tree and its abstract value.    *)
(* An event is accepted iff the outcome is one the specification (JsonTree,*)
(* on which the state machine Jin is built) allows in that state.          *)
(*                                                                         *)
(* Every rejected event is printed and the machine goes on from the state  *)
(* the code reports, so the rest of the log is examined too.  Canaries are *)
(* corrupted copies of events: accepting one is an error of the machinery. *)
(***************************************************************************)
EXTENDS KeyLists, Json, TLC, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, cur

vars == <<i, cur>>

---------------------------------------------------------------------------
(* The document of a session.                                              *)

\* api: I interpreter functions, J a JO, P a Parser, S a Scheme, N none
DocOf(api, d) ==
  LET p == Parse(d) IN
  [api |-> api, d |-> d, ok |-> p.ok, cst |-> p.root,
   ast |-> IF p.ok THEN Ast(d, p.root) ELSE Nothing, keys |-> <<>>, orig |-> <<>>]

NoDoc == [api |-> "N", d |-> <<>>, ok |-> FALSE, cst |-> Nothing, ast |-> Nothing,
          keys |-> <<>>, orig |-> <<>>]

\* concrete tree of what p addresses (p must address something)
RECURSIVE CstAt(_, _, _)
CstAt(c, v, p) ==
  IF p = <<>> THEN c
  ELSE LET n == ChildAt(v, p[1]) IN CstAt(c.c[n], v.c[n], Tail(p))

\* text of a value as getters give it: strings without their quotation marks
InnerText(d, c) == IF c.t = "s" THEN SubSeq(d, c.s + 1, c.e - 1) ELSE SubSeq(d, c.s, c.e)

\* text a path addresses; without a path: the document
GetText(D, p) == IF p = <<>> THEN D.d ELSE InnerText(D.d, CstAt(D.cst, D.ast, p))

Node(D, p) == CstAt(D.cst, D.ast, p)

\* codes for a path that addresses nothing; a Parser does not tell causes apart
MissingCodes(D, r) ==
  IF D.api = "P" THEN {KeyNotFound, IndexOutOfRange, IndexExpected, EmptyArray} ELSE r.codes

---------------------------------------------------------------------------
(* Edits: outcome by JsonTree, and the bytes that must not change.         *)

\* the container at path up lost nothing but what the edit takes: text before
\* and behind it, and the texts and names of the children that stay.
\* from[j]: old position of the child now at j, 0 if it is new (text w)
FrameOK(b, bc, a, ac, from, w) ==
  /\ bc.t = ac.t
  /\ Len(ac.c) = Len(from)
  /\ bc.s = ac.s
  /\ SubSeq(b, 1, bc.s - 1) = SubSeq(a, 1, ac.s - 1)
  /\ SubSeq(b, bc.e + 1, Len(b)) = SubSeq(a, ac.e + 1, Len(a))
  /\ \A j \in 1..Len(from) :
       IF from[j] = 0 THEN RawText(a, ac.c[j]) = w
       ELSE /\ RawText(b, bc.c[from[j]]) = RawText(a, ac.c[j])
            /\ bc.t = "o" => NameText(b, bc.k[from[j]]) = NameText(a, ac.k[j])

Upto(n) == [j \in 1..n |-> j]

\* the text with bytes s..e replaced by w
Splice(d, s, e, w) == SubSeq(d, 1, s - 1) \o w \o SubSeq(d, e + 1, Len(d))

PlainDecimal(x) == IsNumber(x) /\ \A j \in 1..Len(x) : x[j] \notin {69, 101}

\* the text of the value an edit writes
WrittenText(D, e) ==
  CASE e.f = "string" -> IF D.api = "P" /\ e.o = "Set" THEN QuoteAlways(e.w) ELSE FormatType(e.w)
    [] e.f = "float" -> e.x.text
    [] OTHER -> e.w

\* a float is written as a plain decimal number that reads back as the same float64
FloatOK(e) == e.f # "float" \/ (PlainDecimal(e.x.text) /\ e.x.readback = e.x.given)

Outcome(D, e, w) ==
  LET v == Ast(w, Parse(w).root) IN
  CASE e.o = "Set" -> OpSet(D.ast, e.p, v)
    [] e.o = "SetKey" -> OpSetKey(D.ast, e.p, e.k)
    [] e.o = "AddKeyValue" -> IF e.k = <<>> THEN Fail({NullKey}, D.ast) ELSE OpAddKeyValue(D.ast, e.p, e.k, v)
    [] e.o = "Add" -> OpAdd(D.ast, e.p, v)
    [] e.o = "Insert" -> OpInsert(D.ast, e.p, e.n, v)
    [] e.o = "Delete" -> OpDelete(D.ast, e.p)
    [] e.o = "Store" -> OpStore(D.ast, e.p, e.k, v)

FailCodes(D, e, r) ==
  IF r.codes = {OK} THEN {OK}
  ELSE IF D.api = "P"
       THEN (IF e.o = "Insert" /\ e.n < 0 THEN {IndexOutOfRange} ELSE {}) \cup r.codes \cup {KeyNotFound} \cup (IF e.o = "SetKey" THEN AnyError ELSE {})
                    \cup (IF \E x \in r.codes : x \in {KeyNotFound, IndexOutOfRange, IndexExpected, EmptyArray}
                          THEN {KeyNotFound, IndexOutOfRange, IndexExpected, EmptyArray} ELSE {})
       ELSE IF e.o = "Insert" /\ e.n < 0 THEN r.codes \cup {IndexOutOfRange} ELSE r.codes

EditBytesOK(D, e, w, A) ==
  LET n(p) == Len(Node(D, p).c) IN
  CASE e.o = "Set" -> LET c == Node(D, e.p) IN e.r = Splice(D.d, c.s, c.e, w)
    [] e.o = "SetKey" ->
         LET up == Node(D, Front(e.p))
             k == up.k[ChildAt(Resolve(D.ast, Front(e.p)).v, Last(e.p))]
         IN e.r = Splice(D.d, k[1] + 1, k[2] - 1, e.k)
    [] e.o \in {"AddKeyValue", "Add"} ->
         FrameOK(D.d, Node(D, e.p), e.r, CstAt(A.cst, A.ast, e.p), Append(Upto(n(e.p)), 0), w)
    [] e.o = "Insert" ->
         FrameOK(D.d, Node(D, e.p), e.r, CstAt(A.cst, A.ast, e.p), InsertNth(Upto(n(e.p)), e.n + 1, 0), w)
    [] e.o = "Delete" ->
         LET up == Front(e.p)
         IN FrameOK(D.d, Node(D, up), e.r, CstAt(A.cst, A.ast, up),
                    RemoveNth(Upto(n(up)), ChildAt(Resolve(D.ast, up).v, Last(e.p))), <<>>)
    [] e.o = "Store" ->
         LET q == Append(e.p, e.k) IN
         IF Resolve(D.ast, q).ok
         THEN LET c == Node(D, q) IN e.r = Splice(D.d, c.s, c.e, w)
         ELSE FrameOK(D.d, Node(D, e.p), e.r, CstAt(A.cst, A.ast, e.p), Append(Upto(n(e.p)), 0), w)

\* A: the document of the text the code reports after the edit
EditOK(D, e, A) ==
  LET w == WrittenText(D, e)
      r == Outcome(D, e, w)
  IN IF r.codes = {OK}
     THEN /\ e.c = OK
          /\ FloatOK(e)
          /\ A.ok
          /\ A.ast = r.doc
          /\ EditBytesOK(D, e, w, A)
     ELSE /\ e.c \in FailCodes(D, e, r)
          /\ e.r = D.d

EditOps == {"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete", "Store"}

---------------------------------------------------------------------------
(* Reads.                                                                  *)

\* the outcome of a read at e.p: Good if the path addresses something
At(D, e, Good(_)) ==
  LET r == Resolve(D.ast, e.p) IN
  IF r.ok THEN Good(r.v) ELSE e.c \in MissingCodes(D, r)

Ok(e) == e.c = OK

\* children as [name, text]
ChildTexts(D, p) ==
  LET c == Node(D, p) IN [j \in 1..Len(c.c) |-> InnerText(D.d, c.c[j])]
ChildNames(D, p) ==
  LET r == Resolve(D.ast, p).v IN [j \in 1..Len(r.c) |-> ChildName(r, j)]

Bit(x) == IF x THEN 1 ELSE 0

\* the text is that of an array literal although the value is a string
LooksArray(x) == Len(x) >= 2 /\ x[1] = LBRACK /\ x[Len(x)] = RBRACK

\* typed array getters: Elem(text) says whether an element is of the type
ArrayGetter(D, e, wrong, bad, Elem(_), Result(_)) ==
  At(D, e, LAMBDA v :
    IF v.t # "a"
    THEN IF v.t = "s" /\ LooksArray(v.v) THEN TRUE ELSE e.c = wrong
    ELSE IF e.p = <<>> /\ ~LooksArray(D.d) THEN TRUE
    ELSE LET x == ChildTexts(D, e.p)
         IN IF \A j \in 1..Len(x) : Elem(x[j]) THEN Ok(e) /\ Result(x)
            ELSE e.c \in {wrong, bad})

IsBool(x) == x = TRUETEXT \/ x = FALSETEXT

\* the sequence the callback saw, given that it ended the iteration at call
\* e.n (0: never) by stopping or failing
Delivered(all, e) == IF e.n = 0 \/ e.n > Len(all) THEN all ELSE SubSeq(all, 1, e.n)
\* e.e = 1: the call returned the callback's own error
IterEnd(all, e) ==
  IF e.n > 0 /\ e.n <= Len(all) /\ e.f = "err" THEN e.e = 1
  ELSE e.e = 0 /\ e.c = OK

LeafItems(D) ==
  LET ls == LeavesOf(D.ast)
  IN [j \in 1..Len(ls) |-> [k |-> IF ls[j].p = <<>> THEN <<>> ELSE Last(ls[j].p), v |-> ls[j].v.v, p |-> ls[j].p]]

\* TreeFull: depth, label and text of every node below the root
RECURSIVE FullTree(_, _, _, _)
FullTree(d, c, v, n) ==
  FlattenSeq([j \in 1..Len(v.c) |->
     <<[n |-> n, l |-> ChildName(v, j), v |-> RawText(d, c.c[j])]>> \o FullTree(d, c.c[j], v.c[j], n + 1)])

\* a line of TreeFull behind its marker: label, padding, " : ", value
FullLineOK(line, label, val) ==
  LET n == Len(label) IN
  /\ Len(line) >= n + 3 + Len(val)
  /\ SubSeq(line, 1, n) = label
  /\ SubSeq(line, Len(line) - Len(val) + 1, Len(line)) = val
  /\ LET mid == SubSeq(line, n + 1, Len(line) - Len(val))
     IN /\ SubSeq(mid, Len(mid) - 2, Len(mid)) = <<32, 58, 32>>
        /\ \A j \in 1..(Len(mid) - 3) : mid[j] = 32

IsSetOfPairs(r, names, vals) ==
  /\ Len(r) = Cardinality({names[j] : j \in 1..Len(names)})
  /\ {<<r[j].k, r[j].v>> : j \in 1..Len(r)} = {<<names[j], vals[j]>> : j \in 1..Len(names)}

FirstMissing(D, p, ks) ==
  LET h == {j \in 1..Len(ks) : ~Resolve(D.ast, Append(p, ks[j])).ok}
  IN IF h = {} THEN 0 ELSE CHOOSE j \in h : \A m \in h : j <= m

ReadOK(D, e) ==
  CASE e.o \in {"Get", "GetString"} ->
         At(D, e, LAMBDA v : Ok(e) /\ e.r = GetText(D, e.p))
    [] e.o = "GetInt" ->
         At(D, e, LAMBDA v :
           LET x == GetText(D, e.p) IN
           IF IsInt64(x) THEN Ok(e) /\ e.r = CanonInt(x) ELSE e.c = IntegerParse)
    [] e.o = "GetFloat" ->
         \* e.x: what the text is, and what strconv reads in it
         At(D, e, LAMBDA v :
           /\ e.x.text = GetText(D, e.p)
           /\ IF e.x.isfloat = 1 THEN Ok(e) /\ e.b = e.x.bits ELSE e.c = FloatParse)
    [] e.o = "GetBool" ->
         At(D, e, LAMBDA v :
           LET x == GetText(D, e.p) IN
           IF IsBool(x) THEN Ok(e) /\ e.n = Bit(x = TRUETEXT) ELSE e.c = BoolParse)
    [] e.o = "GetStringArray" ->
         ArrayGetter(D, e, StringArrayParse, StringArrayParse, LAMBDA x : TRUE, LAMBDA xs : e.r = xs)
    [] e.o = "GetIntArray" ->
         ArrayGetter(D, e, IntegerArrayParse, IntegerParse, IsInt64,
                     LAMBDA xs : e.r = [j \in 1..Len(xs) |-> CanonInt(xs[j])])
    [] e.o = "GetFloatArray" ->
         ArrayGetter(D, e, FloatArrayParse, FloatParse,
                     LAMBDA x : \E j \in 1..Len(e.x) : e.x[j].text = x /\ e.x[j].isfloat = 1,
                     LAMBDA xs : /\ [j \in 1..Len(e.x) |-> e.x[j].text] = xs
                                 /\ e.b = [j \in 1..Len(e.x) |-> e.x[j].bits])
    [] e.o = "GetBoolArray" ->
         ArrayGetter(D, e, BoolArrayParse, BoolParse, IsBool,
                     LAMBDA xs : e.r = [j \in 1..Len(xs) |-> Bit(xs[j] = TRUETEXT)])
    [] e.o = "GetType" -> At(D, e, LAMBDA v : Ok(e) /\ e.s = TypeName(v))
    [] e.o = "IsObject" -> At(D, e, LAMBDA v : Ok(e) /\ e.n = Bit(v.t = "o"))
    [] e.o = "IsArray" -> At(D, e, LAMBDA v : Ok(e) /\ e.n = Bit(v.t = "a"))
    [] e.o = "IsValue" -> At(D, e, LAMBDA v : Ok(e) /\ e.n = Bit(IsScalar(v)))
    [] e.o = "IsEmpty" ->
         At(D, e, LAMBDA v : IF IsScalar(v) THEN e.c \in AnyError ELSE Ok(e) /\ e.n = Bit(v.c = <<>>))
    [] e.o = "Length" ->
         At(D, e, LAMBDA v : IsScalar(v) \/ (Ok(e) /\ e.n = Len(v.c)))
    [] e.o = "GetKeys" ->
         At(D, e, LAMBDA v :
           IF v.t # "o" THEN e.c = ObjectExpected
           ELSE \/ Ok(e) /\ e.r = ChildNames(D, e.p)
                \/ v.c = <<>> /\ e.p = <<>> /\ e.c = EmptyCode)
    [] e.o = "GetValues" ->
         At(D, e, LAMBDA v :
           IF v.t # "o" THEN e.c = ObjectExpected
           ELSE \/ Ok(e) /\ e.r = ChildTexts(D, e.p)
                \/ v.c = <<>> /\ e.p = <<>> /\ e.c = EmptyCode)
    [] e.o = "GetKeysValues" ->
         At(D, e, LAMBDA v :
           IF v.t # "o" THEN e.c = ObjectExpected
           ELSE \/ Ok(e) /\ e.r = ChildNames(D, e.p) /\ e.v = ChildTexts(D, e.p)
                \/ v.c = <<>> /\ e.p = <<>> /\ e.c = EmptyCode)
    [] e.o = "GetMap" ->
         At(D, e, LAMBDA v :
           IF IsScalar(v) THEN e.c \in AnyError
           ELSE Ok(e) /\ IsSetOfPairs(e.r, ChildNames(D, e.p), ChildTexts(D, e.p)))
    [] e.o = "GetAll" ->
         LET m == FirstMissing(D, e.p, e.ks) IN
         IF m = 0 THEN Ok(e) /\ e.r = [j \in 1..Len(e.ks) |-> GetText(D, Append(e.p, e.ks[j]))]
         ELSE e.c \in Resolve(D.ast, Append(e.p, e.ks[m])).codes
    [] e.o = "GetAllMap" ->
         LET m == FirstMissing(D, e.p, e.ks) IN
         IF m = 0 THEN Ok(e) /\ IsSetOfPairs(e.r, e.ks, [j \in 1..Len(e.ks) |-> GetText(D, Append(e.p, e.ks[j]))])
         ELSE e.c \in Resolve(D.ast, Append(e.p, e.ks[m])).codes
    [] e.o = "ParseArray" ->
         \* on the text of the array at e.p
         At(D, e, LAMBDA v : v.t = "a" => Ok(e) /\ e.r = ChildTexts(D, e.p))
    [] e.o = "IterateArray" ->
         At(D, e, LAMBDA v :
           IF v.t # "a" THEN e.r = <<>> /\ e.c \in {ArrayExpected} \cup (IF Len(D.d) = 2 THEN {BadJSON} ELSE {})
           ELSE LET all == ChildTexts(D, e.p) IN e.r = Delivered(all, e) /\ IterEnd(all, e))
         /\ (~Resolve(D.ast, e.p).ok => e.r = <<>>)
    [] e.o = "IterateKeyValue" ->
         At(D, e, LAMBDA v :
           IF v.t # "o" THEN e.r = <<>> /\ e.c = ObjectExpected
           ELSE LET names == ChildNames(D, e.p)
                    texts == ChildTexts(D, e.p)
                    all == [j \in 1..Len(names) |-> [k |-> names[j], v |-> texts[j]]]
                IN \/ e.r = Delivered(all, e) /\ IterEnd(all, e)
                   \/ v.c = <<>> /\ e.p = <<>> /\ e.r = <<>> /\ e.c = EmptyCode)
         /\ (~Resolve(D.ast, e.p).ok => e.r = <<>>)
    [] e.o = "Walk" ->
         LET all == LeafItems(D) IN
         \/ e.r = Delivered(all, e) /\ IterEnd(all, e)
         \/ D.ast.c = <<>> /\ e.r = <<>> /\ e.c = EmptyCode
    [] e.o = "Flatten" -> Ok(e) /\ e.r = Canon(D.d)
    [] e.o = "Indent" -> Ok(e) /\ e.r = Indented(D.ast)
    [] e.o = "FlattenIndent" -> Ok(e) /\ e.r = Canon(D.d)
    [] e.o = "IndentIndent" -> Ok(e) /\ e.r = Indented(D.ast)
    [] e.o \in {"JSON", "String"} -> Ok(e) /\ e.r = D.d
    [] e.o = "GetNew" ->
         LET r == Resolve(D.ast, e.p) IN
         IF ~r.ok THEN Ok(e) /\ e.n = 0 /\ e.r = <<>>
         ELSE /\ Ok(e) /\ e.n = 1
              /\ IF IsScalar(r.v) THEN e.r = r.v.v
                 ELSE Canon(e.r) = Canon(RawText(D.d, Node(D, e.p)))
    [] e.o = "Tree" ->
         Ok(e) /\ e.r = LET t == TreeOf(D.ast, 0) IN [j \in 1..Len(t) |-> [n |-> t[j].n, l |-> t[j].l]]
    [] e.o = "TreeFull" ->
         \* recorded on documents without insignificant space
         LET t == FullTree(D.d, D.cst, D.ast, 0)
         IN /\ Ok(e)
            /\ Len(e.r) = Len(t)
            /\ \A j \in 1..Len(t) :
                 /\ e.r[j].n = t[j].n
                 /\ FullLineOK(e.r[j].l, t[j].l, t[j].v)

ReadOps == {"Get", "GetString", "GetInt", "GetFloat", "GetBool", "GetStringArray", "GetIntArray",
            "GetFloatArray", "GetBoolArray", "GetType", "IsObject", "IsArray", "IsValue", "IsEmpty",
            "Length", "GetKeys", "GetValues", "GetKeysValues", "GetMap", "GetAll", "GetAllMap",
            "ParseArray", "IterateArray", "IterateKeyValue", "Walk", "Flatten", "Indent",
            "FlattenIndent", "IndentIndent", "JSON", "String", "GetNew", "Tree", "TreeFull"}

---------------------------------------------------------------------------
(* Builders.  e.ws: the arguments, each [f, w, x] like the value of a typed *)
(* edit; e.r the result, e.nil = 1 if there was none.                      *)

ArgText(g) == IF g.f = "string" THEN FormatType(g.w) ELSE IF g.f = "float" THEN g.x.text ELSE g.w
ArgOK(g) == g.f # "float" \/ (IsNumber(g.x.text) /\ g.x.readback = g.x.given /\ (g.plain = 1 => PlainDecimal(g.x.text)))
ArgVal(g) == LET w == ArgText(g) IN Ast(w, Parse(w).root)

BuildOK(e) ==
  LET n == Len(e.ws)
      got == DocOf("N", e.r)
      args == [j \in 1..n |-> ArgVal(e.ws[j])]
  IN CASE e.o = "MakeArray" ->
            /\ e.nil = 0 /\ got.ok /\ \A j \in 1..n : ArgOK(e.ws[j])
            /\ got.ast = Arr(args)
       [] e.o = "MakeJson" ->
            IF Len(e.ks) # n THEN e.nil = 1
            ELSE /\ e.nil = 0 /\ got.ok /\ \A j \in 1..n : ArgOK(e.ws[j])
                 /\ got.ast = Obj(e.ks, args)
       [] e.o = "MakeJsonWithMap" ->
            /\ e.nil = 0 /\ got.ok
            /\ got.ast.t = "o" /\ Len(got.ast.k) = n
            /\ {<<got.ast.k[j], got.ast.c[j]>> : j \in 1..n} = {<<e.ks[j], args[j]>> : j \in 1..n}

BuildOps == {"MakeArray", "MakeJson", "MakeJsonWithMap"}

---------------------------------------------------------------------------
(* Schemes.                                                                *)

ProjectionTextOK(T, ks, R) ==
  \A j \in 1..Len(ks) :
    Resolve(T.ast, <<ks[j]>>).ok =>
      RawText(R.d, R.cst.c[j]) = RawText(T.d, Node(T, <<ks[j]>>))

SchemeNext(D, e) ==
  CASE e.o = "SchemeAdd" -> [D EXCEPT !.keys = WithKey(@, e.k)]
    [] e.o = "SchemeRemove" -> [D EXCEPT !.keys = WithoutKey(@, e.k)]
    [] e.o = "SchemeSave" -> [D EXCEPT !.orig = D.keys]
    [] e.o = "SchemeRestore" -> [D EXCEPT !.keys = D.orig]
    [] OTHER -> D

SchemeOK(D, e) ==
  LET ks == D.keys IN
  CASE e.o = "SchemeAdd" -> e.n = Bit(~HasKey(ks, e.k))
    [] e.o = "SchemeRemove" -> e.n = Bit(HasKey(ks, e.k))
    [] e.o \in {"SchemeSave", "SchemeRestore"} -> TRUE
    [] e.o = "SchemeKeys" -> e.r = ks /\ e.v = D.orig
    [] e.o = "SchemeMake" ->
         BuildOK([o |-> "MakeJson", ks |-> ks, ws |-> e.ws, r |-> e.r, nil |-> e.nil])
    [] e.o = "SchemeMutate" ->
         LET T == DocOf("N", e.d)
             R == DocOf("N", e.r)
         IN /\ e.c = OK /\ R.ok /\ R.ast = ProjectionOf(T.ast, ks) /\ ProjectionTextOK(T, ks, R)
    [] e.o = "SchemeMutateAbs" ->
         LET T == DocOf("N", e.d)
             R == DocOf("N", e.r)
         IN IF Fits(T.ast, ks)
            THEN e.c = OK /\ R.ok /\ R.ast = ProjectionOf(T.ast, ks) /\ ProjectionTextOK(T, ks, R)
            ELSE e.c \in AnyError
    [] e.o = "SchemeCheck" ->
         LET T == DocOf("N", e.d) IN e.n = Bit(Fits(T.ast, ks))
    [] e.o = "SchemeCheckAbs" ->
         LET T == DocOf("N", e.d) IN
         ExactOpen(T.ast, ks) \/ e.n = Bit(FitsExactly(T.ast, ks))

SchemeOps == {"SchemeAdd", "SchemeRemove", "SchemeSave", "SchemeRestore", "SchemeKeys", "SchemeMake",
              "SchemeMutate", "SchemeMutateAbs", "SchemeCheck", "SchemeCheckAbs"}

---------------------------------------------------------------------------
(* Damaged input: e.d is any byte sequence.                                *)

DamagedOK(e) ==
  /\ e.c # -2                   \* returned: no panic
  /\ e.s = "Parse" /\ Unbalanced(e.d) => e.c # OK
  /\ e.s = "Parse" /\ Parse(e.d).ok /\ Parse(e.d).root.t \in {"o", "a"} => e.c = OK

\* what a call was given, and what is there afterwards
KeptOK(e) == e.before = e.after

---------------------------------------------------------------------------

\* A: the document of e.r, computed once
EventOK(D, e, A) ==
  CASE e.o = "New" -> e.c = OK /\ e.r = e.d
    [] e.o = "NewScheme" -> TRUE
    [] e.o \in EditOps -> D.ok => EditOK(D, e, A)
    [] e.o \in ReadOps -> D.ok => (e.c >= OK \/ (e.c = -3 /\ e.e = 1)) /\ ReadOK(D, e)
    [] e.o \in BuildOps -> BuildOK(e)
    [] e.o \in SchemeOps -> SchemeOK(D, e)
    [] e.o = "Damaged" -> DamagedOK(e)
    [] e.o = "Kept" -> KeptOK(e)

After(D, e, A) ==
  CASE e.o = "New" -> DocOf(e.a, e.d)
    [] e.o = "NewScheme" -> [NoDoc EXCEPT !.api = "S", !.keys = e.ks, !.orig = e.ks]
    [] e.o \in EditOps -> IF e.r = D.d THEN D ELSE A
    [] e.o \in SchemeOps -> SchemeNext(D, e)
    [] OTHER -> D

Init == i = 1 /\ cur = NoDoc

Step(e) ==
  LET A == IF e.o \in EditOps THEN (IF e.r = cur.d THEN cur ELSE DocOf(cur.api, e.r)) ELSE NoDoc
      ok == EventOK(cur, e, A)
  IN IF e.z = 1
     THEN /\ IF ok THEN PrintT("CANARY " \o ToString(i)) ELSE TRUE
          /\ cur' = cur
     ELSE /\ IF ok THEN TRUE ELSE PrintT("REJECT " \o ToString(i))
          /\ cur' = After(cur, e, A)

Next == i <= Len(Log) /\ i' = i + 1 /\ Step(Log[i])

Spec == Init /\ [][Next]_vars

View == i

\* every event has been examined
Complete == TLCGet("stats").diameter - 1 = Len(Log)

=============================================================================
