------------------------------- MODULE MC_OWN -------------------------------
(***************************************************************************)
(* Why the discipline of copying keeps holders of arrays apart: a filter   *)
(* on a heap.  Attributes and the caller's variables are references; an    *)
(* operation of the filter writes fresh arrays and copies what it is given *)
(* or hands out (Fresh).  The laws of Own.tla are checked on the views.    *)
(* With Fresh = FALSE (arrays updated in place, arguments kept) they fail: *)
(* MC_OWN_inplace.cfg is the negative control.                             *)
(***************************************************************************)
EXTENDS Own
CONSTANT Depth, Fresh
VARIABLES heap, x, post, z, own, hist, op, k
vars == <<heap, x, post, z, own, hist, op, k>>
New(h, v) == Append(h, v)
\* attributes: x post z are addresses; own: addresses of the caller's arguments; hist: of results handed out
Init == heap = <<0, 0, 0>> /\ x = 1 /\ post = 2 /\ z = 3 /\ own = <<>> /\ hist = <<>> /\ op = <<"new">> /\ k = 0
\* the caller passes an array of his own (a new one, or one he passed before)
Update == \E a \in 0..Len(own) :
  LET h0 == IF a = 0 THEN Append(heap, 7) ELSE heap
      arg == IF a = 0 THEN Len(heap) + 1 ELSE own[a]
      val == heap[x] + h0[arg]
      n == Len(h0)
  IN  /\ own' = IF a = 0 THEN Append(own, arg) ELSE own
      /\ IF Fresh THEN heap' = h0 \o <<val, val, h0[arg]>> /\ x' = n + 1 /\ post' = n + 2 /\ z' = n + 3
         ELSE heap' = [h0 EXCEPT ![x] = val] /\ x' = x /\ post' = x /\ z' = arg
      /\ UNCHANGED hist /\ op' = <<"call">>
\* the caller reads a result (a batch, a query): an array of its own
Ask == /\ heap' = IF Fresh THEN Append(heap, heap[x]) ELSE heap
       /\ hist' = Append(hist, IF Fresh THEN Len(heap) + 1 ELSE x)
       /\ UNCHANGED <<x, post, z, own>> /\ op' = <<"call">>
\* the caller writes into an argument, a result, an attribute
Scribble == \E a \in 1..Len(own) : heap' = [heap EXCEPT ![own[a]] = @ + 100] /\ UNCHANGED <<x, post, z, own, hist>> /\ op' = <<"scribble", a>>
Poke == \E a \in {"x", "post", "z"} : LET p == CASE a = "x" -> x [] a = "post" -> post [] OTHER -> z IN
          heap' = [heap EXCEPT ![p] = @ + 1000] /\ UNCHANGED <<x, post, z, own, hist>> /\ op' = <<"poke", a>>
Next == k < Depth /\ k' = k + 1 /\ (Update \/ Ask \/ Scribble \/ Poke)
Spec == Init /\ [][Next]_vars
View == <<heap, x, post, z, own, hist, k>>
\* what can be observed
Name(q) == ToString(q)
Obs == [obj |-> [a \in {"x", "post", "z"} |-> heap[CASE a = "x" -> x [] a = "post" -> post [] OTHER -> z]],
        own |-> [a \in {Name(q) : q \in 1..Len(own)} |-> heap[own[CHOOSE q \in 1..Len(own) : Name(q) = a]]],
        hist |-> [a \in {Name(q) : q \in 1..Len(hist)} |-> heap[hist[CHOOSE q \in 1..Len(hist) : Name(q) = a]]]]
Empty(r) == \A f \in DOMAIN r : r[f] = {}
NobodyElse == [][CASE op'[1] = "call" -> Empty(AfterCall(Obs, Obs'))
                   [] op'[1] = "scribble" -> Empty(AfterScribble(Obs, Obs', Name(op'[2])))
                   [] op'[1] = "poke" -> Empty(AfterPoke(Obs, Obs', {op'[2]}))]_vars
Separate == LET all == <<x, post, z>> \o own \o hist IN \A a, b \in 1..Len(all) : a # b => all[a] # all[b]
=============================================================================
