------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON text as sequences of bytes.                                        *)
(*                                                                         *)
(* Parse(d) reads a text in one left-to-right fold (the same one pass,     *)
(* quote/escape/level tracking discipline the library's scanners use) and  *)
(* yields a concrete syntax tree in which every value and every member     *)
(* name carries its span, so that both the abstract value (Ast) and the    *)
(* exact bytes of any part of the text can be named.                       *)
(*                                                                         *)
(* Text of strings and member names is kept raw: this library never        *)
(* decodes escapes, so two strings are equal iff their bytes are.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

QUOTE == 34
COMMA == 44
COLON == 58
LBRACK == 91
BSLASH == 92
RBRACK == 93
LBRACE == 123
RBRACE == 125

IsSpace(b) == b \in {32, 9, 10, 13}
IsDigit(b) == b >= 48 /\ b <= 57

Blank(d) == \A i \in 1..Len(d) : IsSpace(d[i])

TRUETEXT  == <<116, 114, 117, 101>>
FALSETEXT == <<102, 97, 108, 115, 101>>
NULLTEXT  == <<110, 117, 108, 108>>
TwoQuotes == <<QUOTE, QUOTE>>

Quoted(x) == <<QUOTE>> \o x \o <<QUOTE>>

---------------------------------------------------------------------------
(* JSON's number grammar, as an automaton: S sign or digit, M digit after  *)
(* the sign, Z after a leading zero, I integer part, P behind the point,   *)
(* F fraction, E behind the e, G behind its sign, X exponent, N not one.   *)

NumStep(q, b) ==
  CASE q = "S" -> IF b = 45 THEN "M" ELSE IF b = 48 THEN "Z"
                  ELSE IF IsDigit(b) THEN "I" ELSE "N"
    [] q = "M" -> IF b = 48 THEN "Z" ELSE IF IsDigit(b) THEN "I" ELSE "N"
    [] q = "Z" -> IF b = 46 THEN "P" ELSE IF b \in {69, 101} THEN "E" ELSE "N"
    [] q = "I" -> IF IsDigit(b) THEN "I" ELSE IF b = 46 THEN "P"
                  ELSE IF b \in {69, 101} THEN "E" ELSE "N"
    [] q = "P" -> IF IsDigit(b) THEN "F" ELSE "N"
    [] q = "F" -> IF IsDigit(b) THEN "F" ELSE IF b \in {69, 101} THEN "E" ELSE "N"
    [] q = "E" -> IF b \in {43, 45} THEN "G" ELSE IF IsDigit(b) THEN "X" ELSE "N"
    [] q = "G" -> IF IsDigit(b) THEN "X" ELSE "N"
    [] q = "X" -> IF IsDigit(b) THEN "X" ELSE "N"
    [] OTHER -> "N"

IsNumber(x) == FoldLeft(NumStep, "S", x) \in {"Z", "I", "F", "X"}

\* the kind of a bare (unquoted) scalar: number, boolean, null or not JSON
BareKind(x) ==
  IF x = TRUETEXT \/ x = FALSETEXT THEN "b"
  ELSE IF x = NULLTEXT THEN "z"
  ELSE IF IsNumber(x) THEN "n"
  ELSE "?"

---------------------------------------------------------------------------
(* The parser.  Modes of the fold:                                         *)
(*   "val" value wanted      "first" value or ] wanted (behind [)          *)
(*   "mem" name or } wanted (behind {)      "name" name wanted (behind ,)  *)
(*   "inname" inside a name  "colon" : wanted                              *)
(*   "str" inside a string   "bare" inside a bare scalar                   *)
(*   "next" , or a closing bracket wanted                                  *)
(*   "done" only space may follow           "bad"                          *)

\* a value of the concrete tree: kind, span (inclusive), name spans, children
Cst(t, s, e, k, c) == [t |-> t, s |-> s, e |-> e, k |-> k, c |-> c]

Nothing == Cst("?", 0, 0, <<>>, <<>>)

\* the value v is complete: hand it to the innermost open container
Deliver(a, v) ==
  IF a.stk = <<>> THEN [a EXCEPT !.m = "done", !.root = v]
  ELSE LET n == Len(a.stk)
           f == a.stk[n]
           g == [f EXCEPT !.c = Append(@, v)]
       IN [a EXCEPT !.m = "next", !.stk = [@ EXCEPT ![n] = g]]

\* a member name with span k is complete: it belongs to the innermost object
EndName(a, k) ==
  LET n == Len(a.stk)
  IN [a EXCEPT !.stk = [@ EXCEPT ![n] = [@ EXCEPT !.k = Append(@, k)]]]

\* closing bracket at i
Close(a, i, t) ==
  IF a.stk = <<>> \/ Last(a.stk).t # t THEN [a EXCEPT !.m = "bad"]
  ELSE LET f == Last(a.stk)
       IN Deliver([a EXCEPT !.stk = Front(@)], Cst(f.t, f.s, i, f.k, f.c))

Open(a, i, t) ==
  [a EXCEPT !.m = IF t = "o" THEN "mem" ELSE "first",
            !.stk = Append(@, [t |-> t, s |-> i, k |-> <<>>, c |-> <<>>])]

StartValue(a, i, b) ==
  CASE b = LBRACE -> Open(a, i, "o")
    [] b = LBRACK -> Open(a, i, "a")
    [] b = QUOTE  -> [a EXCEPT !.m = "str", !.b = i, !.esc = FALSE]
    [] b \in {COMMA, COLON, RBRACK, RBRACE} -> [a EXCEPT !.m = "bad"]
    [] OTHER      -> [a EXCEPT !.m = "bare", !.b = i]

AfterValue(a, i, b) ==
  IF IsSpace(b) THEN a
  ELSE IF a.stk = <<>> THEN [a EXCEPT !.m = "bad"]
  ELSE CASE b = COMMA  -> [a EXCEPT !.m = IF Last(a.stk).t = "o" THEN "name" ELSE "val"]
         [] b = RBRACK -> Close(a, i, "a")
         [] b = RBRACE -> Close(a, i, "o")
         [] OTHER      -> [a EXCEPT !.m = "bad"]

ByteStep(d, a, b) ==
  LET i == a.i + 1 IN
  CASE a.m = "str" \/ a.m = "inname" ->
         IF a.esc THEN [a EXCEPT !.i = i, !.esc = FALSE]
         ELSE IF b = BSLASH THEN [a EXCEPT !.i = i, !.esc = TRUE]
         ELSE IF b # QUOTE THEN [a EXCEPT !.i = i]
         ELSE IF a.m = "inname" THEN EndName([a EXCEPT !.i = i, !.m = "colon"], <<a.b, i>>)
         ELSE Deliver([a EXCEPT !.i = i], Cst("s", a.b, i, <<>>, <<>>))
    [] a.m = "bare" ->
         IF IsSpace(b) \/ b \in {COMMA, RBRACK, RBRACE}
         THEN LET kind == BareKind(SubSeq(d, a.b, i - 1))
              IN IF kind = "?" THEN [a EXCEPT !.i = i, !.m = "bad"]
                 ELSE LET v == Deliver([a EXCEPT !.i = i], Cst(kind, a.b, i - 1, <<>>, <<>>))
                      IN IF IsSpace(b) THEN v ELSE AfterValue(v, i, b)
         ELSE [a EXCEPT !.i = i]
    [] a.m = "next" -> AfterValue([a EXCEPT !.i = i], i, b)
    [] a.m = "bad" -> a
    [] IsSpace(b) -> [a EXCEPT !.i = i]
    [] a.m = "val" -> StartValue([a EXCEPT !.i = i], i, b)
    [] a.m = "first" -> IF b = RBRACK THEN Close([a EXCEPT !.i = i], i, "a")
                        ELSE StartValue([a EXCEPT !.i = i], i, b)
    [] a.m = "mem" -> IF b = RBRACE THEN Close([a EXCEPT !.i = i], i, "o")
                      ELSE IF b = QUOTE THEN [a EXCEPT !.i = i, !.m = "inname", !.b = i, !.esc = FALSE]
                      ELSE [a EXCEPT !.i = i, !.m = "bad"]
    [] a.m = "name" -> IF b = QUOTE THEN [a EXCEPT !.i = i, !.m = "inname", !.b = i, !.esc = FALSE]
                       ELSE [a EXCEPT !.i = i, !.m = "bad"]
    [] a.m = "colon" -> IF b = COLON THEN [a EXCEPT !.i = i, !.m = "val"]
                        ELSE [a EXCEPT !.i = i, !.m = "bad"]
    [] OTHER -> [a EXCEPT !.i = i, !.m = "bad"]

ParseAcc(d) ==
  LET z == [m |-> "val", i |-> 0, b |-> 0, esc |-> FALSE,
            stk |-> <<>>, root |-> Nothing]
      r == FoldLeft(LAMBDA a, b : ByteStep(d, a, b), z, d)
  IN \* a bare scalar may end with the text
     IF r.m = "bare" /\ r.stk = <<>> /\ BareKind(SubSeq(d, r.b, Len(d))) # "?"
     THEN Deliver(r, Cst(BareKind(SubSeq(d, r.b, Len(d))), r.b, Len(d), <<>>, <<>>))
     ELSE r

\* Parse: [ok, root]
Parse(d) == LET r == ParseAcc(d) IN [ok |-> r.m = "done", root |-> r.root]

NameText(d, k) == SubSeq(d, k[1] + 1, k[2] - 1)
RawText(d, c) == SubSeq(d, c.s, c.e)

---------------------------------------------------------------------------
(* Abstract values: kind, text of a scalar, member names, children.        *)

Val(t, v, k, c) == [t |-> t, v |-> v, k |-> k, c |-> c]
Str(x)  == Val("s", x, <<>>, <<>>)
Arr(c)  == Val("a", <<>>, <<>>, c)
Obj(k, c) == Val("o", <<>>, k, c)

IsScalar(v) == v.t \in {"s", "n", "b", "z"}

RECURSIVE Ast(_, _)
Ast(d, c) ==
  CASE c.t = "s" -> Val("s", SubSeq(d, c.s + 1, c.e - 1), <<>>, <<>>)
    [] c.t \in {"n", "b", "z"} -> Val(c.t, SubSeq(d, c.s, c.e), <<>>, <<>>)
    [] OTHER -> Val(c.t, <<>>, [i \in 1..Len(c.k) |-> NameText(d, c.k[i])],
                    [i \in 1..Len(c.c) |-> Ast(d, c.c[i])])

JoinComma(xs) ==
  IF xs = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, x : a \o <<COMMA>> \o x, xs[1], Tail(xs))

\* the shortest text of a value
RECURSIVE Render(_)
Render(v) ==
  CASE v.t = "s" -> Quoted(v.v)
    [] v.t = "a" -> <<LBRACK>> \o JoinComma([i \in 1..Len(v.c) |-> Render(v.c[i])]) \o <<RBRACK>>
    [] v.t = "o" -> <<LBRACE>>
                    \o JoinComma([i \in 1..Len(v.c) |-> Quoted(v.k[i]) \o <<COLON>> \o Render(v.c[i])])
                    \o <<RBRACE>>
    [] OTHER -> v.v

\* a value as the getters give it: strings lose their quotation marks
Inner(v) == IF v.t = "s" THEN v.v ELSE Render(v)

---------------------------------------------------------------------------
(* Texts without their insignificant space, and indented.                  *)

CanonStep(a, b) ==
  IF a.q THEN [o |-> Append(a.o, b), q |-> a.e \/ b # QUOTE, e |-> ~a.e /\ b = BSLASH]
  ELSE IF IsSpace(b) THEN a
  ELSE [o |-> Append(a.o, b), q |-> b = QUOTE, e |-> FALSE]

Canon(d) == FoldLeft(CanonStep, [o |-> <<>>, q |-> FALSE, e |-> FALSE], d).o

Tabs(n) == [i \in 1..n |-> 9]

RECURSIVE IndentAt(_, _)
\* one child per line behind one tab per level, one space behind a colon;
\* containers without children keep the line break pattern of the library
IndentAt(v, n) ==
  LET body(xs) == IF xs = <<>> THEN <<>>
                  ELSE FoldLeft(LAMBDA a, x : a \o <<COMMA, 10>> \o Tabs(n + 1) \o x, xs[1], Tail(xs))
      wrap(l, r, xs) == <<l, 10>> \o Tabs(n + 1) \o body(xs) \o <<10>> \o Tabs(n) \o <<r>>
  IN CASE v.t = "a" -> wrap(LBRACK, RBRACK, [i \in 1..Len(v.c) |-> IndentAt(v.c[i], n + 1)])
       [] v.t = "o" -> wrap(LBRACE, RBRACE,
                            [i \in 1..Len(v.c) |-> Quoted(v.k[i]) \o <<COLON, 32>> \o IndentAt(v.c[i], n + 1)])
       [] OTHER -> Render(v)

Indented(v) == IndentAt(v, 0)

---------------------------------------------------------------------------
(* Bracket balance outside strings: what a parser of any tolerance must    *)
(* refuse.  Brackets close in pairs of one kind, and nothing stays open.   *)

BalStep(a, b) ==
  IF a.q THEN [a EXCEPT !.q = a.e \/ b # QUOTE, !.e = ~a.e /\ b = BSLASH]
  ELSE IF b = QUOTE THEN [a EXCEPT !.q = TRUE, !.e = FALSE]
  ELSE IF b \in {LBRACK, LBRACE} THEN [a EXCEPT !.open = Append(@, b)]
  ELSE IF b \in {RBRACK, RBRACE}
  THEN IF a.open = <<>> THEN [a EXCEPT !.bad = TRUE]
       ELSE [a EXCEPT !.bad = a.bad \/ Last(a.open) # b - 2, !.open = Front(@)]
  ELSE a

Unbalanced(d) ==
  LET r == FoldLeft(BalStep, [open |-> <<>>, q |-> FALSE, e |-> FALSE, bad |-> FALSE], d)
  IN r.bad \/ r.open # <<>>

=============================================================================
