------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* The texts scalar values, numbers and given strings may have, generated  *)
(* as a state machine: a text grows by bytes of an alphabet, or is one of  *)
(* the seed texts (literals, limits of int64, delimited values) changed at *)
(* up to Changes places.  For every text TLC decides what the typed        *)
(* getters must read in it and what the String forms must write for it.    *)
(***************************************************************************)
EXTENDS JsonTree, Json, TLC

CONSTANTS Seeds, Alphabet, MaxLen, Changes, Emit

VARIABLES x, left

vars == <<x, left>>

Init == \/ x = <<>> /\ left = -1
        \/ x \in Seeds /\ left = Changes

Grow == /\ left = -1 /\ Len(x) < MaxLen
        /\ \E b \in Alphabet : x' = Append(x, b)
        /\ UNCHANGED left

Change ==
  /\ left > 0 /\ left' = left - 1
  /\ \/ \E i \in 1..Len(x) : x' = RemoveNth(x, i)
     \/ \E i \in 1..Len(x), b \in Alphabet : x' = [x EXCEPT ![i] = b]
     \/ \E i \in 1..(Len(x) + 1), b \in Alphabet : x' = InsertNth(x, i, b)

Next == Grow \/ Change

Spec == Init /\ [][Next]_vars

\* a text is a text, however it came about
TextView == <<x, left>>

---------------------------------------------------------------------------
(* The number grammar a second time, by its parts instead of an automaton. *)

RECURSIVE DigitsFrom(_, _)
DigitsFrom(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsFrom(t, i + 1) ELSE i

IsNumber2(t) ==
  LET i0 == IF t # <<>> /\ t[1] = 45 THEN 2 ELSE 1
      i1 == DigitsFrom(t, i0)
      intOK == i1 > i0 /\ (t[i0] = 48 => i1 = i0 + 1)
      point == i1 <= Len(t) /\ t[i1] = 46
      i2 == IF point THEN DigitsFrom(t, i1 + 1) ELSE i1
      fracOK == point => i2 > i1 + 1
      exp == i2 <= Len(t) /\ t[i2] \in {69, 101}
      s == IF exp /\ i2 + 1 <= Len(t) /\ t[i2 + 1] \in {43, 45} THEN i2 + 2 ELSE i2 + 1
      i3 == IF exp THEN DigitsFrom(t, s) ELSE i2
      expOK == exp => i3 > s
  IN intOK /\ fracOK /\ expOK /\ i3 = Len(t) + 1

\* decimals beyond JSON's: + signs, missing digits on one side of the point,
\* leading zeros; a reader of floats may take them, and only with their value
LaxStep(q, b) ==
  CASE q \in {"S", "M"} -> IF q = "S" /\ b \in {43, 45} THEN "M" ELSE IF IsDigit(b) THEN "I"
                          ELSE IF b = 46 THEN "D" ELSE "N"
    [] q = "I" -> IF IsDigit(b) THEN "I" ELSE IF b = 46 THEN "F" ELSE IF b \in {69, 101} THEN "E" ELSE "N"
    [] q = "D" -> IF IsDigit(b) THEN "F" ELSE "N"
    [] q = "F" -> IF IsDigit(b) THEN "F" ELSE IF b \in {69, 101} THEN "E" ELSE "N"
    [] q = "E" -> IF b \in {43, 45} THEN "G" ELSE IF IsDigit(b) THEN "X" ELSE "N"
    [] q \in {"G", "X"} -> IF IsDigit(b) THEN "X" ELSE "N"
    [] OTHER -> "N"
LaxDecimal(t) == FoldLeft(LaxStep, "S", t) \in {"I", "F", "X"}
\* words and hexadecimal floats: left open as well
FloatWord(t) == \E j \in 1..Len(t) : t[j] \in {73, 105, 78, 110, 120, 88, 95}   \* Inf NaN 0x _
LaxFloat(t) == LaxDecimal(t) \/ FloatWord(t)
LaxHoldsNumbers == (IsNumber(x) \/ IsInt64(x)) => LaxDecimal(x)

NumberAgrees == IsNumber(x) <=> IsNumber2(x)
IntAgrees ==
  IsInt64(x) =>
    /\ IsInt64(CanonInt(x)) /\ CanonInt(CanonInt(x)) = CanonInt(x)
    /\ IsNumber(CanonInt(x))
    /\ StripZeros(StripSign(CanonInt(x))) = StripZeros(StripSign(x))
IntIsNumber == IsInt64(x) /\ x[1] # 43 /\ (Len(StripSign(x)) > 1 => StripSign(x)[1] # 48) => IsNumber(x)
FormatIdempotent == FormatType(FormatType(x)) = FormatType(x)
QuoteIdempotent == QuoteAlways(QuoteAlways(x)) = QuoteAlways(x)
FormatKeeps ==
  /\ IsNumber(x) \/ x \in {TRUETEXT, FALSETEXT, NULLTEXT} => FormatType(x) = x
  /\ FormatType(x) \in {x, Quoted(x)}
  /\ x = <<>> => FormatType(x) = TwoQuotes

\* a text that stands for exactly one value by itself
OneValue(t) == LET p == Parse(t) IN p.ok /\ ~IsSpace(t[1]) /\ ~IsSpace(t[Len(t)])

\* the text Quoted(x) is one string
Quotable == LET p == Parse(Quoted(x)) IN p.ok /\ p.root.t = "s"

\* the exponent is short enough for float64
ShortExp ==
  LET e == {j \in 1..Len(x) : x[j] \in {69, 101}}
  IN e = {} \/ Cardinality({j \in 1..Len(x) : IsDigit(x[j]) /\ \E k \in e : k < j}) <= 2

ClassifiesExactly ==
  LET kinds == {k \in {"n", "b", "z", "?"} : BareKind(x) = k} IN
  /\ Cardinality(kinds) = 1
  /\ BareKind(x) = "n" <=> IsNumber(x)

Vector ==
  [x |-> x,
   bare |-> IF BareKind(x) = "?" \/ ~ShortExp THEN 0 ELSE 1,
   quot |-> IF Quotable THEN 1 ELSE 0,
   int |-> IF IsInt64(x) THEN CanonInt(x) ELSE <<>>,
   num |-> IF IsNumber(x) THEN 1 ELSE IF LaxFloat(x) THEN 2 ELSE 0,  \* 2: left open
   short |-> IF ShortExp THEN 1 ELSE 0,
   bool |-> IF x = TRUETEXT THEN 1 ELSE IF x = FALSETEXT THEN 0 ELSE 2,
   fmt |-> IF (IsNumber(x) => ShortExp) /\ OneValue(FormatType(x)) THEN FormatType(x) ELSE <<>>,
   qt |-> IF OneValue(QuoteAlways(x)) THEN QuoteAlways(x) ELSE <<>>]

Emitted == ~Emit \/ PrintT(ToJson(Vector))

SeedsNumbers == {MaxInt64, MinInt64, <<45>> \o MinInt64, <<45>> \o MaxInt64,
                 <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>,        \* 18446744073709551615
                 <<50,49,52,55,52,56,51,54,52,55>>, <<52,50,57,52,57,54,55,50,57,53>>,    \* 2147483647 4294967295
                 <<49,46,53,101,45,49,48>>, <<45,48,46,48>>, <<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,51>>}
SeedsWords == {TRUETEXT, FALSETEXT, NULLTEXT, Quoted(<<97>>), Quoted(<<>>),
               <<LBRACK, 49, RBRACK>>, <<LBRACK, RBRACK>>, <<LBRACE, RBRACE>>, <<LBRACE, QUOTE, 97, QUOTE, COLON, 49, RBRACE>>,
               <<78, 97, 78>>, <<73, 110, 102>>, <<48, 120, 49, 70>>}
BytesNumbers == {48, 49, 57, 43, 45, 46, 101}       \* 0 1 9 + - . e
BytesWords == {97, 32, 34, 92, 91, 93, 123, 125, 44, 58, 49}  \* a space " \ [ ] { } , : 1
BytesShort == {48, 45, 46, 69, 116, 32, 34, 91}
NoSeeds == {}
=============================================================================
