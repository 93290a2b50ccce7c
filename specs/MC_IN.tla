------------------------------- MODULE MC_IN -------------------------------
(***************************************************************************)
(* Many filters on one heap.  A new filter gets arrays of its own (Fresh), *)
(* so it is the prior whatever happened to the others before, and nobody   *)
(* changes when another one steps.  A call that is refused is refused      *)
(* before anything is written.  With Fresh = FALSE (defaults shared by all *)
(* instances) both laws fail: MC_IN_shared.cfg is the negative control.    *)
(***************************************************************************)
EXTENDS World
CONSTANT Depth, Fresh
VARIABLES heap, fs, op, k
vars == <<heap, fs, op, k>>
Dims == {0, 1, 2}
Default(n) == [i \in 1..n |-> 1]
\* the arrays at the start of the heap are the defaults of the classes
Init == heap = <<Default(1), Default(2)>> /\ fs = <<>> /\ op = <<"start", 0>> /\ k = 0
Show == [i \in 1..Len(fs) |-> heap[fs[i]]]
New == \E n \in Dims :
  IF ~Valid("dims", [n |-> n, m |-> 1, u |-> 0]) THEN UNCHANGED <<heap, fs>> /\ op' = <<"refused", 0>>
  ELSE /\ Len(fs) < 4
       /\ heap' = IF Fresh THEN Append(heap, Default(n)) ELSE heap
       /\ fs' = Append(fs, IF Fresh THEN Len(heap) + 1 ELSE n)
       /\ op' = <<"new", n>>
\* an update writes in place; one of the wrong size is refused
Update == \E i \in 1..Len(fs), size \in Dims :
  IF ~Valid("measurement", [size |-> size, m |-> Len(heap[fs[i]])]) THEN UNCHANGED <<heap, fs>> /\ op' = <<"refused", 0>>
  ELSE heap' = [heap EXCEPT ![fs[i]] = [j \in DOMAIN @ |-> 2 * @[j] + 1]] /\ UNCHANGED fs /\ op' = <<"step", i>>
Next == k < Depth /\ k' = k + 1 /\ (New \/ Update)
Spec == Init /\ [][Next]_vars
NewIsPrior == op[1] = "new" => Show[Len(fs)] = Default(op[2])
Alone == [][CASE op'[1] = "new" -> Others(Show, Show', Len(fs) + 1)
              [] op'[1] = "step" -> Others(Show, Show', op'[2])
              [] OTHER -> Others(Show, Show', 0) /\ Len(fs) = Len(fs')]_vars
\* the shapes that fit: whatever is wrong with one of them is found
Good(n, m, flat, noz) == [n |-> n, m |-> m, x |-> IF flat THEN <<n>> ELSE <<n, 1>>, P |-> <<n, n>>, Q |-> <<n, n>>, F |-> <<n, n>>,
                          H |-> <<m, n>>, R |-> <<m, m>>, z |-> IF flat THEN <<m>> ELSE <<m, 1>>, noz |-> noz]
Shapes == \A n, m \in 1..3, flat, noz \in BOOLEAN :
  LET d == Good(n, m, flat, noz) IN
  /\ Fits(d)
  /\ \A f \in {"P", "Q", "F"}, r, c \in 1..4 : Fits([d EXCEPT ![f] = <<r, c>>]) <=> (r = n /\ c = n)
  /\ \A r, c \in 1..4 : Fits([d EXCEPT !.H = <<r, c>>]) => c = n /\ r = m
=============================================================================
