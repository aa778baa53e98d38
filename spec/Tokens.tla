------------------------------ MODULE Tokens ------------------------------
(***************************************************************************)
(* How abstract documents are written in vectors: as tokens { } [ ] : ,    *)
(* name, kind+label.  The scalars of a document are labelled 1.. in        *)
(* document order, so that vectors tell apart equal kinds at different     *)
(* places; a value an edit writes is labelled v.                           *)
(***************************************************************************)
EXTENDS JsonTree

RECURSIVE Leaves(_)
Leaves(v) == IF IsScalar(v) THEN 1 ELSE FoldLeft(LAMBDA x, y : x + Leaves(y), 0, v.c)

RECURSIVE LabelFrom(_, _)
LabelFrom(v, n) ==
  IF IsScalar(v) THEN [v EXCEPT !.v = <<49 + n>>]
  ELSE [v EXCEPT !.c = [i \in 1..Len(v.c) |->
          LabelFrom(v.c[i], n + FoldLeft(LAMBDA x, y : x + Leaves(y), 0, SubSeq(v.c, 1, i - 1)))]]

Label(v) == LabelFrom(v, 0)

\* a written value: labelled v
RECURSIVE LabelNew(_)
LabelNew(v) ==
  IF IsScalar(v) \/ v.t = "x" THEN [v EXCEPT !.v = <<118>>]
  ELSE [v EXCEPT !.c = [i \in 1..Len(v.c) |-> LabelNew(v.c[i])]]

\* x stands for any value at all: its text is never looked into
Opaque == Val("x", <<118>>, <<>>, <<>>)

KindByte(t) == CASE t = "s" -> 115 [] t = "n" -> 110 [] t = "b" -> 98 [] t = "z" -> 122 [] t = "x" -> 120

RECURSIVE Tok(_)
Tok(v) ==
  CASE v.t = "a" -> <<LBRACK>> \o JoinComma([i \in 1..Len(v.c) |-> Tok(v.c[i])]) \o <<RBRACK>>
    [] v.t = "o" -> <<LBRACE>> \o JoinComma([i \in 1..Len(v.c) |-> v.k[i] \o <<COLON>> \o Tok(v.c[i])]) \o <<RBRACE>>
    [] OTHER -> <<KindByte(v.t)>> \o v.v

\* path elements are one byte long here
Flat(p) == [i \in 1..Len(p) |-> p[i][1]]

=============================================================================
