------------------------------- MODULE MC_CP -------------------------------
(***************************************************************************)
(* Copies of a filter on a heap.  An object has an attribute that steps    *)
(* replace (x), one that they write in place (P), and functions bound to   *)
(* an object (me), whose gain they read.  A copy of everything (Deep) has  *)
(* a life of its own: what an object shows depends only on the operations  *)
(* that were done to it, or to the object it was copied from before that.  *)
(* With Deep = FALSE this fails: MC_CP_shallow.cfg is the negative control.*)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Depth, Deep
VARIABLES heap, objs, k
vars == <<heap, objs, k>>
N == Len(objs)
Init == heap = <<1, 1, 1>> /\ objs = <<[x |-> 1, P |-> 2, g |-> 3, me |-> 1, done |-> <<>>]>> /\ k = 0
\* a step of object i with the gain of the object its functions are bound to
Step == \E i \in 1..N :
  LET o == objs[i]
      v == 2 * heap[o.x] + heap[objs[o.me].g]
      h == [heap EXCEPT ![o.P] = @ + heap[o.x]]
  IN  heap' = Append(h, v) /\ objs' = [objs EXCEPT ![i] = [o EXCEPT !.x = Len(h) + 1, !.done = Append(@, "step")]]
\* the caller writes into an attribute
Write == \E i \in 1..N, a \in {"x", "g"} :
  /\ heap' = [heap EXCEPT ![objs[i][a]] = @ + 5]
  /\ objs' = [objs EXCEPT ![i].done = Append(@, a)]
Copy == \E i \in 1..N : LET o == objs[i] n == Len(heap) IN
  /\ N < 3
  /\ IF Deep THEN heap' = heap \o <<heap[o.x], heap[o.P], heap[o.g]>>
                  /\ objs' = Append(objs, [x |-> n + 1, P |-> n + 2, g |-> n + 3, me |-> N + 1, done |-> o.done])
     ELSE heap' = heap /\ objs' = Append(objs, o)
Next == k < Depth /\ k' = k + 1 /\ (Step \/ Write \/ Copy)
Spec == Init /\ [][Next]_vars
RECURSIVE Life(_, _, _)
Life(done, i, s) ==
  IF i > Len(done) THEN s
  ELSE Life(done, i + 1, CASE done[i] = "step" -> [s EXCEPT !.x = 2 * s.x + s.g, !.P = s.P + s.x]
                           [] done[i] = "x" -> [s EXCEPT !.x = @ + 5]
                           [] OTHER -> [s EXCEPT !.g = @ + 5])
OwnLife == \A i \in 1..N : LET o == objs[i] IN
  [x |-> heap[o.x], P |-> heap[o.P], g |-> heap[o.g]] = Life(o.done, 1, [x |-> 1, P |-> 1, g |-> 1])
=============================================================================
