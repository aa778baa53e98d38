------------------------------ MODULE CallsMem ------------------------------
(***************************************************************************)
(* The memory behind Calls: why calls are independent, or are not.         *)
(* A call fills working memory (a scan table, a stack, a cache) from its   *)
(* argument, uses it in later steps, and hands out a result in some piece  *)
(* of memory; other clients run between its steps, and its own client      *)
(* calls again from within a callback.                                     *)
(*                                                                         *)
(* Work: where the working memory is: one per "call", per "client", per    *)
(* "object" (the argument) or for the "package".  Out: results in "fresh"  *)
(* memory, or in the "package"'s.  Jin's design is "call" and "fresh"; the *)
(* others are controls, each must fail.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Procs, Contents, MaxCalls, Work, Out

Objects == {0} \cup Procs        \* 0 is shared and only read; p is p's own
VARIABLES
  content,   \* of the objects
  mem,       \* working memory, cell -> content
  calls,     \* per client the stack of its open calls: [arg, cell, fresh]
  made,      \* calls begun so far: they number the cells of "call" and "fresh"
  outs,      \* memory of results
  held,      \* results clients hold: [cell, was]
  wrong      \* an answer was not the argument's

vars == <<content, mem, calls, made, outs, held, wrong>>

Cells == 0..MaxCalls + Cardinality(Objects) + 1

Init ==
  /\ content \in [Objects -> Contents]
  /\ mem = [c \in Cells |-> 0]
  /\ calls = [p \in Procs |-> <<>>]
  /\ made = 0
  /\ outs = [c \in Cells |-> 0]
  /\ held = {}
  /\ wrong = FALSE

CellOf(p, o) ==
  CASE Work = "call" -> made + 1
    [] Work = "client" -> MaxCalls + 1 + p
    [] Work = "object" -> MaxCalls + 1 + o
    [] Work = "package" -> 0

\* a call on o, by p: it fills its working memory
Begin(p, o) ==
  /\ made < MaxCalls /\ Len(calls[p]) < 2
  /\ o \in {0, p}
  /\ LET c == CellOf(p, o) IN
     /\ mem' = [mem EXCEPT ![c] = content[o]]
     /\ calls' = [calls EXCEPT ![p] = Append(@, [arg |-> content[o], cell |-> c, n |-> made + 1])]
  /\ made' = made + 1
  /\ UNCHANGED <<content, outs, held, wrong>>

\* the innermost open call of p answers from its working memory
End(p) ==
  /\ calls[p] # <<>>
  /\ LET k == calls[p][Len(calls[p])]
         out == IF Out = "fresh" THEN k.n ELSE 0
         r == mem[k.cell] IN
     /\ wrong' = (wrong \/ r # k.arg)
     /\ outs' = [outs EXCEPT ![out] = r]
     /\ held' = held \cup {[cell |-> out, was |-> r]}
     /\ calls' = [calls EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<content, mem, made>>

\* p's own object changes; not while a call on it is open
Change(p) ==
  /\ calls[p] = <<>>
  /\ \E x \in Contents \ {content[p]} : content' = [content EXCEPT ![p] = x]
  /\ UNCHANGED <<mem, calls, made, outs, held, wrong>>

Next == \E p \in Procs : End(p) \/ Change(p) \/ \E o \in Objects : Begin(p, o)
Spec == Init /\ [][Next]_vars

RepliesRight == ~wrong
HeldStay == \A h \in held : outs[h.cell] = h.was

\* no two clients are in calls that use the same working memory: every call
\* writes its own, so that would be a data race
RaceFree ==
  \A p, q \in Procs : p # q =>
    \A i \in 1..Len(calls[p]), j \in 1..Len(calls[q]) : calls[p][i].cell # calls[q][j].cell

=============================================================================
