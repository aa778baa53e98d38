------------------------------ MODULE JsonTree ------------------------------
(***************************************************************************)
(* The abstract document: a tree, and what every edit and every query of   *)
(* the library means on it.  Nothing here knows about text layout.         *)
(*                                                                         *)
(* An edit yields [codes, doc]: codes is {OK} if it must succeed, else the *)
(* error codes it may fail with (then doc is the given document).          *)
(***************************************************************************)
EXTENDS JsonText

OK == -1
NullPath == 0
EmptyArray == 2
IndexExpected == 3
ObjectExpected == 5
ArrayExpected == 6
IndexOutOfRange == 7
KeyNotFound == 8
BadJSON == 9
KeyAlreadyExist == 11
IntegerParse == 12
FloatParse == 13
BoolParse == 14
StringArrayParse == 15
IntegerArrayParse == 16
FloatArrayParse == 17
BoolArrayParse == 18
NullKey == 19
EmptyCode == 20

AnyError == 0..20

MaxOf(a, b) == IF a > b THEN a ELSE b

---------------------------------------------------------------------------
(* Path elements.  An element is an index if it is written like an integer.*)

NotIndex == -2
OutOfRange == -1

AllDigits(x) == x # <<>> /\ \A i \in 1..Len(x) : IsDigit(x[i])

IndexOf(x) ==
  IF AllDigits(x)
  THEN IF Len(x) > 8 THEN OutOfRange
       ELSE FoldLeft(LAMBDA a, b : 10 * a + (b - 48), 0, x)
  ELSE IF x # <<>> /\ x[1] = 45 /\ AllDigits(Tail(x)) THEN OutOfRange
  ELSE NotIndex

RECURSIVE DecimalOf(_)
DecimalOf(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecimalOf(n \div 10), 48 + (n % 10))

\* position (1..) of child x in container v, 0 if there is none
ChildAt(v, x) ==
  IF v.t = "o"
  THEN LET h == {i \in 1..Len(v.k) : v.k[i] = x} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
  ELSE IF v.t = "a"
  THEN LET n == IndexOf(x) IN IF n >= 0 /\ n < Len(v.c) THEN n + 1 ELSE 0
  ELSE 0

\* the name or index of child i
ChildName(v, i) == IF v.t = "o" THEN v.k[i] ELSE DecimalOf(i - 1)

\* Resolve: what a path addresses, [ok, codes, v]
Found(v) == [ok |-> TRUE, codes |-> {OK}, v |-> v]
Missed(cs) == [ok |-> FALSE, codes |-> cs, v |-> Nothing]

\* why container v has no child x
MissCodes(v, x) ==
  IF v.t = "o" THEN {KeyNotFound}
  ELSE IF IndexOf(x) = NotIndex THEN {IndexExpected}
  ELSE IF Len(x) > 8 THEN {IndexOutOfRange, IndexExpected, EmptyArray}
  ELSE IF v.c = <<>> /\ IndexOf(x) = 0 THEN {EmptyArray, IndexOutOfRange}
  ELSE {IndexOutOfRange}

RECURSIVE Resolve(_, _)
Resolve(v, p) ==
  IF p = <<>> THEN Found(v)
  ELSE IF IsScalar(v) THEN Missed({KeyNotFound, IndexOutOfRange})
  ELSE LET i == ChildAt(v, p[1])
       IN IF i = 0 THEN Missed(MissCodes(v, p[1]))
          ELSE IF Len(p) > 1 /\ IsScalar(v.c[i])
          THEN Missed(IF v.t = "o" THEN {KeyNotFound} ELSE {IndexOutOfRange})
          ELSE Resolve(v.c[i], Tail(p))

\* put w where p leads
RECURSIVE PutAt(_, _, _)
PutAt(v, p, w) ==
  IF p = <<>> THEN w
  ELSE [v EXCEPT !.c = [@ EXCEPT ![ChildAt(v, p[1])] = PutAt(@, Tail(p), w)]]

---------------------------------------------------------------------------
(* Edits.                                                                  *)

Done(d) == [codes |-> {OK}, doc |-> d]
Fail(cs, d) == [codes |-> cs, doc |-> d]

RemoveNth(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertNth(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

OpSet(d, p, w) ==
  IF p = <<>> THEN Fail({NullPath}, d)
  ELSE LET r == Resolve(d, p)
       IN IF r.ok THEN Done(PutAt(d, p, w)) ELSE Fail(r.codes, d)

OpSetKey(d, p, key) ==
  IF key = <<>> THEN Fail({NullKey, NullPath}, d)
  ELSE IF p = <<>> THEN Fail({NullPath}, d)
  ELSE LET up == Resolve(d, Front(p))
           r == Resolve(d, p)
           taken == up.v.t = "o" /\ ChildAt(up.v, key) # 0
       IN IF up.ok /\ up.v.t # "o" THEN Fail(AnyError, d)
          ELSE IF ~r.ok THEN Fail(r.codes \cup (IF taken THEN {BadJSON, KeyAlreadyExist} ELSE {}), d)
          ELSE IF taken THEN Fail({BadJSON, KeyAlreadyExist}, d)
          ELSE LET i == ChildAt(up.v, Last(p))
               IN Done(PutAt(d, Front(p), [up.v EXCEPT !.k = [@ EXCEPT ![i] = key]]))

OpAddKeyValue(d, p, key, w) ==
  LET r == Resolve(d, p)
  IN IF ~r.ok THEN Fail(r.codes, d)
     ELSE IF r.v.t # "o" THEN Fail({ObjectExpected}, d)
     ELSE IF ChildAt(r.v, key) # 0 THEN Fail({KeyAlreadyExist}, d)
     ELSE Done(PutAt(d, p, [r.v EXCEPT !.k = Append(@, key), !.c = Append(@, w)]))

OpAdd(d, p, w) ==
  LET r == Resolve(d, p)
  IN IF ~r.ok THEN Fail(r.codes, d)
     ELSE IF r.v.t # "a" THEN Fail({ArrayExpected}, d)
     ELSE Done(PutAt(d, p, [r.v EXCEPT !.c = Append(@, w)]))

\* n: zero based index, at an existing element
OpInsert(d, p, n, w) ==
  LET r == Resolve(d, p)
  IN IF ~r.ok THEN Fail(r.codes, d)
     ELSE IF r.v.t # "a" THEN Fail({ArrayExpected}, d)
     ELSE IF n < 0 \/ n >= Len(r.v.c) THEN Fail({IndexOutOfRange, EmptyArray}, d)
     ELSE Done(PutAt(d, p, [r.v EXCEPT !.c = InsertNth(@, n + 1, w)]))

OpDelete(d, p) ==
  IF p = <<>> THEN Fail({NullPath}, d)
  ELSE LET r == Resolve(d, p)
       IN IF ~r.ok THEN Fail(r.codes, d)
          ELSE LET up == Resolve(d, Front(p)).v
                   i == ChildAt(up, Last(p))
               IN Done(PutAt(d, Front(p),
                     [up EXCEPT !.c = RemoveNth(@, i),
                                !.k = IF up.t = "o" THEN RemoveNth(@, i) ELSE @]))

OpStore(d, p, key, w) ==
  LET r == Resolve(d, Append(p, key))
      up == Resolve(d, p)
  IN IF r.ok THEN OpSet(d, Append(p, key), w)
     ELSE IF ~up.ok THEN Fail(up.codes, d)
     ELSE IF up.v.t = "o" THEN OpAddKeyValue(d, p, key, w)
     ELSE Fail({ObjectExpected} \cup r.codes, d)

---------------------------------------------------------------------------
(* Queries.                                                                *)

\* paths of all values, in document order (the root's path is <<>>)
RECURSIVE PathsOf(_)
PathsOf(v) ==
  <<<<>>>> \o
  FlattenSeq([i \in 1..Len(v.c) |->
     LET sub == PathsOf(v.c[i])
     IN [j \in 1..Len(sub) |-> <<ChildName(v, i)>> \o sub[j]]])

\* the scalars as Walk meets them: [p, v]
RECURSIVE LeavesOf(_)
LeavesOf(v) ==
  IF IsScalar(v) THEN <<[p |-> <<>>, v |-> v]>>
  ELSE FlattenSeq([i \in 1..Len(v.c) |->
     LET sub == LeavesOf(v.c[i])
     IN [j \in 1..Len(sub) |-> [p |-> <<ChildName(v, i)>> \o sub[j].p, v |-> sub[j].v]]])

\* Tree(): depth and label of every node below the root, in document order
RECURSIVE TreeOf(_, _)
TreeOf(v, n) ==
  FlattenSeq([i \in 1..Len(v.c) |->
     <<[n |-> n, l |-> ChildName(v, i)]>> \o TreeOf(v.c[i], n + 1)])

TypeName(v) ==
  CASE v.t = "o" -> "object" [] v.t = "a" -> "array" [] v.t = "s" -> "string"
    [] v.t = "n" -> "number" [] v.t = "b" -> "boolean" [] v.t = "z" -> "null"

RECURSIVE Nodes(_)
Nodes(v) == 1 + FoldLeft(LAMBDA a, c : a + Nodes(c), 0, v.c)

RECURSIVE Depth(_)
Depth(v) == FoldLeft(LAMBDA a, c : MaxOf(a, 1 + Depth(c)), 0, v.c)

RECURSIVE UniqueNames(_)
UniqueNames(v) ==
  /\ v.t = "o" => Len(v.k) = Len(v.c) /\ \A i, j \in 1..Len(v.k) : v.k[i] = v.k[j] => i = j
  /\ v.t # "o" => v.k = <<>>
  /\ IsScalar(v) => v.c = <<>>
  /\ \A i \in 1..Len(v.c) : UniqueNames(v.c[i])

\* text a String form writes for x
Delimited(x, l, r) == x[1] = l /\ x[Len(x)] = r
FormatType(x) ==
  IF x = <<>> THEN <<QUOTE, QUOTE>>
  ELSE IF BareKind(x) # "?" THEN x
  ELSE IF Delimited(x, QUOTE, QUOTE) \/ Delimited(x, LBRACK, RBRACK) \/ Delimited(x, LBRACE, RBRACE) THEN x
  ELSE Quoted(x)

\* text Parser.SetString writes for x
QuoteAlways(x) == IF Len(x) >= 2 /\ Delimited(x, QUOTE, QUOTE) THEN x ELSE Quoted(x)

---------------------------------------------------------------------------
(* Numbers by their digits: TLC's integers are too narrow for int64.       *)

StripSign(x) == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
RECURSIVE StripZeros(_)
StripZeros(x) == IF Len(x) > 1 /\ x[1] = 48 THEN StripZeros(Tail(x)) ELSE x

RECURSIVE LexLE(_, _)
LexLE(x, y) == IF x = <<>> THEN TRUE ELSE x[1] < y[1] \/ (x[1] = y[1] /\ LexLE(Tail(x), Tail(y)))
MagLE(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LexLE(x, y))

MaxInt64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MinInt64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>

\* x is an integer in the int64 range
IsInt64(x) ==
  LET m == StripSign(x) IN
  /\ AllDigits(m)
  /\ MagLE(StripZeros(m), IF x[1] = 45 THEN MinInt64 ELSE MaxInt64)

\* the canonical decimal of the integer written in x
CanonInt(x) ==
  LET m == StripZeros(StripSign(x))
  IN IF x[1] = 45 /\ m # <<48>> THEN <<45>> \o m ELSE m

=============================================================================
