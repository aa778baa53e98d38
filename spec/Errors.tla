------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Errors: what a caller can tell about them.  An error has a kind, and    *)
(* speaks of a text that came from the caller (a name, a value): any text  *)
(* at all, such as one that reads like the end of another error.           *)
(* ErrEqual(e, c) says whether e is of the kind with code c, and must say  *)
(* so of exactly one code, whatever the text.                              *)
(*                                                                         *)
(* Design: how a message is read.  "end": its last two digits.  "found":   *)
(* the code is searched for; a control, which must fail.                   *)
(***************************************************************************)
EXTENDS JsonTree, Json, TLC

CONSTANTS Pieces, MaxPieces, Design, Emit

VARIABLES text, n

vars == <<text, n>>

Kinds ==
  {[k |-> "NullPath", c |-> NullPath, says |-> FALSE], [k |-> "EmptyArray", c |-> EmptyArray, says |-> FALSE],
   [k |-> "IndexExpected", c |-> IndexExpected, says |-> FALSE], [k |-> "ObjectExpected", c |-> ObjectExpected, says |-> FALSE],
   [k |-> "ArrayExpected", c |-> ArrayExpected, says |-> FALSE], [k |-> "IndexOutOfRange", c |-> IndexOutOfRange, says |-> FALSE],
   [k |-> "KeyNotFound", c |-> KeyNotFound, says |-> TRUE], [k |-> "BadJSON", c |-> BadJSON, says |-> FALSE],
   [k |-> "KeyAlreadyExist", c |-> KeyAlreadyExist, says |-> TRUE], [k |-> "IntegerParse", c |-> IntegerParse, says |-> TRUE],
   [k |-> "FloatParse", c |-> FloatParse, says |-> TRUE], [k |-> "BoolParse", c |-> BoolParse, says |-> TRUE],
   [k |-> "StringArrayParse", c |-> StringArrayParse, says |-> TRUE], [k |-> "IntegerArrayParse", c |-> IntegerArrayParse, says |-> TRUE],
   [k |-> "FloatArrayParse", c |-> FloatArrayParse, says |-> TRUE], [k |-> "BoolArrayParse", c |-> BoolArrayParse, says |-> TRUE],
   [k |-> "NullKey", c |-> NullKey, says |-> FALSE], [k |-> "Empty", c |-> EmptyCode, says |-> FALSE]}

ErrorCode == <<101,114,114,111,114,95,99,111,100,101,58,32>>      \* error_code:
Two(c) == <<48 + (c \div 10), 48 + (c % 10)>>
Intro == <<101,114,114,58,32>>                                     \* err:
Message(k, t) == Intro \o (IF k.says THEN <<39>> \o t \o <<39, 32>> ELSE <<>>) \o ErrorCode \o Two(k.c)

EndsWith(m, x) == Len(m) >= Len(x) /\ SubSeq(m, Len(m) - Len(x) + 1, Len(m)) = x
HasIn(m, x) == \E i \in 0..(Len(m) - Len(x)) : SubSeq(m, i + 1, i + Len(x)) = x

ErrEqual(m, c) == IF Design = "end" THEN EndsWith(m, Two(c)) ELSE HasIn(m, ErrorCode \o Two(c))

Init == text = <<>> /\ n = 0
Next == n < MaxPieces /\ n' = n + 1 /\ \E p \in Pieces : text' = text \o p
Spec == Init /\ [][Next]_vars

TextView == text

Exact == \A k \in Kinds : {c \in 0..99 : ErrEqual(Message(k, text), c)} = {k.c}
Distinct == \A k, l \in Kinds : k.c = l.c => k = l

\* what the typed getters make of the text as a string
Vector ==
  [x |-> text,
   e |-> {[k |-> k.k, c |-> k.c] : k \in Kinds},
   num |-> IF IsNumber(text) \/ IsInt64(text) THEN 1 ELSE 0,
   flt |-> IF \A i \in 1..Len(text) : IsDigit(text[i]) \/ text[i] = 45 THEN 1 ELSE 0,  \* 1: may be one
   idx |-> IF IndexOf(text) = NotIndex THEN 0 ELSE 1,
   bool |-> IF text \in {TRUETEXT, FALSETEXT} THEN 1 ELSE 0]

Emitted == ~Emit \/ PrintT(ToJson(Vector))

\* texts that look like ends of messages
PiecesMany ==
  {ErrorCode, <<48,56>>, <<50,48>>, <<48,48>>, <<49>>, <<32>>, <<97>>, <<39>>, <<37,100>>, <<37,118>>, <<195,168>>, <<91>>, <<44>>, <<45>>, <<10>>}
PiecesFew == {ErrorCode, <<48,56>>, <<49,50>>, <<32>>, <<97>>, <<39>>, <<37>>}
=============================================================================
