------------------------------- MODULE MC_SV -------------------------------
(* A Saver watching an object that changes between saves.                   *)
EXTENDS Common
CONSTANT Depth
VARIABLES obj, s, seen, k
vars == <<obj, s, seen, k>>
Conf == [private |-> TRUE, callable |-> TRUE, ignore |-> {"skip"}, priv |-> {"_p"}, calls |-> {"f"}]
Init == /\ obj = [x |-> 1, skip |-> 1, f |-> "function"] @@ ("_p" :> 1)
        /\ s = [conf |-> Conf, saved |-> [q \in {} |-> 0], n |-> 0]
        /\ seen = <<>> /\ k = 0
Mutate == \E a \in {"x", "skip", "_p"} : obj' = [obj EXCEPT ![a] = (@ + 1) % 3] /\ UNCHANGED <<s, seen>>
SaveIt == s' = Save(s, obj) /\ seen' = Append(seen, obj) /\ UNCHANGED obj
Next == k < Depth /\ k' = k + 1 /\ (Mutate \/ SaveIt)
Spec == Init /\ [][Next]_vars
Faithful == /\ s.n = Len(seen)
            /\ DOMAIN s.saved = IF seen = <<>> THEN {} ELSE {"x"}
            /\ seen # <<>> => s.saved["x"] = [q \in 1..Len(seen) |-> seen[q].x]
\* what was saved stays
SavedForever == [][\A a \in DOMAIN s.saved : SubSeq(s'.saved[a], 1, Len(s.saved[a])) = s.saved[a]]_vars
=============================================================================
