------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* The builders: MakeArray*, MakeJson*, MakeJsonWithMap and the Scheme's.  *)
(* A caller collects arguments of Go types, one after the other; a builder *)
(* writes them as a document.  The document is said twice: as a text, and  *)
(* as what adding the arguments one by one to [] or {} makes of it.        *)
(***************************************************************************)
EXTENDS JsonTree, Json, TLC

CONSTANTS
  Args,      \* arguments a caller may give: [f |-> Go type, x |-> text]
  MaxArgs,
  Emit

VARIABLES args

A(f, x) == [f |-> f, x |-> x]

\* text of an argument in a document
Written(a) == IF a.f \in {"string", "named string"} THEN FormatType(a.x) ELSE a.x

ArrayText(as) == <<LBRACK>> \o JoinComma([i \in 1..Len(as) |-> Written(as[i])]) \o <<RBRACK>>
Key(i) == <<96 + i>>
ObjectText(as) ==
  <<LBRACE>> \o JoinComma([i \in 1..Len(as) |-> Quoted(Key(i)) \o <<COLON>> \o Written(as[i])]) \o <<RBRACE>>

\* nil: keys and values differ in number
NoDocument == <<>>
Json2(nkeys, as) == IF nkeys # Len(as) THEN NoDocument ELSE ObjectText(as)

Init == args = <<>>
Next == Len(args) < MaxArgs /\ \E a \in Args : args' = Append(args, a)
Spec == Init /\ [][Next]_args

---------------------------------------------------------------------------
Tree(d) == Ast(d, Parse(d).root)

WellFormed ==
  /\ Parse(ArrayText(args)).ok /\ Parse(ObjectText(args)).ok
  /\ Canon(Render(Tree(ArrayText(args)))) = Canon(ArrayText(args))

\* one member per argument, with its text
ReadsBack ==
  LET d == ArrayText(args)
      r == Parse(d).root
      o == ObjectText(args)
      q == Parse(o).root
  IN /\ r.t = "a" /\ q.t = "o" /\ Len(r.c) = Len(args) /\ Len(q.c) = Len(args)
     /\ \A i \in 1..Len(args) :
          /\ RawText(d, r.c[i]) = Written(args[i]) /\ RawText(o, q.c[i]) = Written(args[i])
          /\ NameText(o, q.k[i]) = Key(i)
          /\ args[i].f = "string" => \/ r.c[i].t = "s" /\ SubSeq(d, r.c[i].s + 1, r.c[i].e - 1) = args[i].x
                                     \/ RawText(d, r.c[i]) = args[i].x
          /\ args[i].f \notin {"string", "named string", "bool", "named bool", "raw"} => r.c[i].t = "n"
          /\ args[i].f = "bool" => r.c[i].t = "b"

ValueOf(a) == Tree(Written(a))
LikeAdds ==
  /\ Tree(ArrayText(args)) = FoldLeft(LAMBDA d, a : OpAdd(d, <<>>, ValueOf(a)).doc, Arr(<<>>), args)
  /\ Tree(ObjectText(args)) =
       FoldLeft(LAMBDA d, i : OpAddKeyValue(d, <<>>, Key(i), ValueOf(args[i])).doc, Obj(<<>>, <<>>), [i \in 1..Len(args) |-> i])

\* earlier arguments stay where they are
Grows == [][SubSeq(args', 1, Len(args)) = args
            /\ SubSeq(ArrayText(args'), 1, Len(ArrayText(args)) - 1) = SubSeq(ArrayText(args), 1, Len(ArrayText(args)) - 1)]_args

Vector ==
  [a |-> [i \in 1..Len(args) |-> [f |-> args[i].f, x |-> args[i].x, w |-> Written(args[i])]],
   r |-> ArrayText(args), o |-> ObjectText(args),
   n |-> {[k |-> k, o |-> Json2(k, args)] : k \in {Len(args) - 1, Len(args) + 1} \cap Nat}]

Emitted == ~Emit \/ PrintT(ToJson(Vector))

---------------------------------------------------------------------------
(* Arguments: the ends of each type's range and what lies between.         *)

Zero == <<48>>  Five == <<53>>
Max8 == <<49,50,55>>  Min8 == <<45,49,50,56>>  MaxU8 == <<50,53,53>>
Max16 == <<51,50,55,54,55>>  Min16 == <<45,51,50,55,54,56>>  MaxU16 == <<54,53,53,51,53>>
Max32 == <<50,49,52,55,52,56,51,54,52,55>>  Min32 == <<45,50,49,52,55,52,56,51,54,52,56>>
MaxU32 == <<52,50,57,52,57,54,55,50,57,53>>
Min64 == <<45>> \o MinInt64
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
Half == <<48,46,53>>  Tiny == <<45,49,46,53,101,45,49,48>>  Huge == <<49,101,43,50,51>>   \* 0.5 -1.5e-10 1e+23
Third == <<48,46,51,51,51,51,51,51,51,51,51,51,51,51,51,51,51,51>>   \* 0.3333333333333333

Ints ==
  {A("int", Zero), A("int", MaxInt64), A("int", Min64), A("int8", Max8), A("int8", Min8), A("int16", Max16), A("int16", Min16),
   A("int32", Max32), A("int32", Min32), A("int64", MaxInt64), A("int64", Min64), A("named int", Five)}
Uints ==
  {A("uint", Zero), A("uint", MaxU64), A("uint8", MaxU8), A("uint16", MaxU16), A("uint32", MaxU32), A("uint64", MaxU64), A("uint64", MaxInt64)}
Floats == {A("float64", Half), A("float64", Tiny), A("float64", Huge), A("float64", Third), A("float64", Five), A("float32", Half), A("float32", Five)}
Bools == {A("bool", TRUETEXT), A("bool", FALSETEXT), A("named bool", TRUETEXT)}
Strings ==
  {A("string", <<>>), A("string", <<97, 32, 98>>), A("string", <<49, 50>>), A("string", NULLTEXT), A("string", TRUETEXT),
   A("string", Quoted(<<113>>)), A("string", <<LBRACK, QUOTE, 113, QUOTE, COMMA, LBRACE, RBRACE, RBRACK>>),
   A("string", <<97, COMMA, 98>>), A("string", <<45>>), A("string", <<49, 46>>), A("string", <<COMMA>>), A("string", <<COLON>>),
   A("string", <<32>>), A("string", <<48, 49>>), A("string", <<98, RBRACK>>), A("string", <<LBRACE, 97>>), A("named string", <<97>>)}
Raws == {A("raw", Quoted(<<>>)), A("raw", NULLTEXT), A("raw", <<49, 50>>), A("raw", <<LBRACK, 32, RBRACK>>),
         A("raw", <<LBRACE, QUOTE, RBRACE, QUOTE, 32, COLON, 32, 49, RBRACE>>), A("raw", TRUETEXT), A("raw", Quoted(<<COMMA>>))}
Anys == Ints \cup Uints \cup Floats \cup Bools \cup Strings
OneOfEach ==
  {A("int", Min64), A("int8", Min8), A("uint64", MaxU64), A("float64", Half), A("float32", Five), A("bool", FALSETEXT),
   A("string", <<>>), A("string", <<97, COMMA, 98>>), A("string", <<LBRACK, RBRACK>>), A("named string", <<97>>)}
StringsFew == {A("string", <<>>), A("string", <<COMMA>>), A("string", <<49>>), A("string", Quoted(<<>>)), A("string", <<LBRACE, RBRACE>>), A("string", <<97>>)}
Few == {A("int", Zero), A("int", Min64), A("int", MaxInt64)}
FewFloats == {A("float64", Half), A("float64", Huge), A("float64", Zero)}
FewBools == {A("bool", TRUETEXT), A("bool", FALSETEXT)}
=============================================================================
