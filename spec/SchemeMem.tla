----------------------------- MODULE SchemeMem -----------------------------
(***************************************************************************)
(* Schemes as the code keeps them: key lists are Go slices, windows on     *)
(* arrays that slices may share.  Appending writes into the array when     *)
(* there is room behind the window and moves to a new array otherwise.     *)
(*                                                                         *)
(* Checked: this design refines Scheme, and no list handed out earlier (the*)
(* results of GetCurrentKeys and GetOriginalKeys) nor the slice a Scheme   *)
(* was made from ever changes.  Careful = FALSE is the design that appends *)
(* to the window as it is; it must fail (a control of this model).         *)
(***************************************************************************)
EXTENDS KeyLists, TLC

CONSTANTS Ids, Keys, Starts, MaxSteps, Careful, CopyArgs

VARIABLES heap, cur, orig, held, n

vars == <<heap, cur, orig, held, n>>

\* a slice: array, length; the array's length is its capacity
Free == <<33>>
KeysIn(s) == SubSeq(heap[s.a], 1, s.n)
KeysAt(h, s) == SubSeq(h[s.a], 1, s.n)

\* a new array holding ks with spare room behind
Alloc(h, ks, spare) == Append(h, ks \o [j \in 1..spare |-> Free])

Window(h, ks) == [a |-> Len(h), n |-> Len(ks)]

Hand(h, c, o) == held \cup {[s |-> x, v |-> KeysAt(h, x)] : x \in {c[i] : i \in Ids} \cup {o[i] : i \in Ids}}

Init ==
  \E ks \in Starts, spare \in 0..1 :
    \* the caller's slice, from which every Scheme is made
    LET h0 == Alloc(<<>>, ks, spare)
        caller == [a |-> 1, n |-> Len(ks)]
        m == Cardinality(Ids)
        h == IF CopyArgs THEN h0 \o [i \in 1..m |-> ks] ELSE h0
        w == [i \in Ids |-> IF CopyArgs THEN [a |-> i + 1, n |-> Len(ks)] ELSE caller]
    IN /\ heap = h /\ cur = w /\ orig = w
       /\ held = {[s |-> caller, v |-> ks]} \cup {[s |-> w[i], v |-> ks] : i \in Ids}
       /\ n = 0

Step(h, c, o) == heap' = h /\ cur' = c /\ orig' = o /\ held' = Hand(h, c, o) /\ n' = n + 1 /\ n < MaxSteps

\* append(s.keys[:len:len], k) or append(s.keys, k)
Add(i, k) ==
  LET s == cur[i]
      ks == KeysIn(s) IN
  IF HasKey(ks, k) THEN Step(heap, cur, orig)
  ELSE IF ~Careful /\ Len(heap[s.a]) > s.n
  THEN Step([heap EXCEPT ![s.a] = [@ EXCEPT ![s.n + 1] = k]], [cur EXCEPT ![i] = [@ EXCEPT !.n = @ + 1]], orig)
  ELSE \E spare \in 0..1 :
         LET h == Alloc(heap, Append(ks, k), spare)
         IN Step(h, [cur EXCEPT ![i] = Window(h, Append(ks, k))], orig)

\* a new array of the old capacity
Drop(i, k) ==
  LET ks == WithoutKey(KeysIn(cur[i]), k)
      h == Alloc(heap, ks, cur[i].n - Len(ks))
  IN Step(h, [cur EXCEPT ![i] = Window(h, ks)], orig)

Save(i) == Step(heap, cur, [orig EXCEPT ![i] = cur[i]])
Restore(i) == Step(heap, [cur EXCEPT ![i] = orig[i]], orig)

\* the caller uses the memory it made the Schemes from for something else
Scribble ==
  /\ CopyArgs
  /\ heap' = [heap EXCEPT ![1] = [j \in 1..Len(@) |-> Free]]
  /\ held' = {x \in held : x.s.a # 1}
  /\ n < MaxSteps /\ n' = n + 1
  /\ UNCHANGED <<cur, orig>>

Next ==
  \/ Scribble
  \/ \E i \in Ids :
       \/ \E k \in Keys : Add(i, k) \/ Drop(i, k)
       \/ Save(i) \/ Restore(i)

Spec == Init /\ [][Next]_vars

HeldStay == \A x \in held : KeysIn(x.s) = x.v

Lists(f) == [i \in Ids |-> KeysIn(f[i])]
Abs(f, h) == [i \in Ids |-> KeysAt(h, f[i])]

\* the steps of Scheme, on the values
AbsStep ==
  LET c == Abs(cur, heap)  d == Abs(cur', heap')
      o == Abs(orig, heap) p == Abs(orig', heap')
  IN \/ c = d /\ o = p
     \/ \E i \in Ids :
          \/ \E k \in Keys : /\ p = o
                             /\ d \in {[c EXCEPT ![i] = WithKey(@, k)], [c EXCEPT ![i] = WithoutKey(@, k)]}
          \/ d = c /\ p = [o EXCEPT ![i] = c[i]]
          \/ p = o /\ d = [c EXCEPT ![i] = o[i]]

Refines == [][AbsStep]_vars

A == <<97>>  B == <<98>>
KeysAB == {A, B}
KeysABC == {A, B, <<99>>}
Starts2 == {<<>>, <<A>>, <<B, A>>}
One == 1..1
Two == 1..2
=============================================================================
