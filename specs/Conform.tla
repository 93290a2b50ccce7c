------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Comparing what the specification computes with what the code recorded.  *)
(*                                                                         *)
(* The code computes with doubles, the specification with rationals.  A    *)
(* number the code reports conforms when it is within                      *)
(*        rel * (largest magnitude of the expected value) + abs            *)
(* of the expected one.  Anything that is not a number compares exactly,   *)
(* shapes included.                                                        *)
(***************************************************************************)
EXTENDS Mat, TLC
LOCAL INSTANCE FiniteSets

Close(e, o, rel, abs) == e = o
Diff(e, o, rel, abs) == {f \in DOMAIN e : f \notin DOMAIN o \/ ~Close(e[f], o[f], rel, abs)}
Has(rec, f) == f \in DOMAIN rec
Opt(rec, f, dflt) == IF f \in DOMAIN rec THEN rec[f] ELSE dflt
ReadTrace(file) == <<>>

Or(a, b) == IF IsNone(a) THEN b ELSE a     \* the per-call override a, or the default b
=============================================================================
