-------------------------------- MODULE Hist --------------------------------
(***************************************************************************)
(* Call histories of an object's life.  Each component of filterpy has an  *)
(* alphabet of abstract operations (an operation and how its arguments are *)
(* given) and a condition under which an operation may come next.  The     *)
(* histories of length Depth are printed as JSON; the drivers choose       *)
(* numbers for them and execute them on the real objects.  Run exhaustively*)
(* for small depths and with -simulate beyond; with ALT = "1" only those   *)
(* that repeat two operations in turn, for long.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Depth
VARIABLE h

C == IOEnv.COMP
Last == IF h = <<>> THEN "" ELSE h[Len(h)]
Did(S) == \E i \in 1..Len(h) : h[i] \in S

KFPred == {"predict", "predict:u", "predict:Bu", "predict:F", "predict:Q", "predict:q", "predict:all"}
KFUpd  == {"update", "update:R", "update:r", "update:H", "update:HR", "update:none"}
KFAsk  == {"get_prediction", "get_prediction:all", "get_update", "get_update:none", "residual_of",
           "measurement_of_state", "log_likelihood_of"}
KFVar  == {"predict_steadystate", "predict_steadystate:u", "predict_steadystate:Bu", "update_steadystate", "update_steadystate:none",
           "update_correlated", "update_correlated:R", "update_correlated:r", "update_correlated:none", "update_correlated:H", "update_correlated:HR",
           "update_sequential", "update_sequential:R", "update_sequential:H", "update_sequential:two"}
KFSet  == {"set:x", "set:P", "set:F", "set:H", "set:Q", "set:R", "set:alpha", "set:B"}

\* the other linear filters: what a call is given, and changes of the model between calls
LF(extra) == {"predict", "predict:u", "update", "update:R", "update:r", "update:none", "set:x", "set:P", "set:F",
              "set:Q", "set:R", "set:H"} \cup extra

Predicts == {"predict", "predict:dt", "predict:args", "predict:fx", "predict:ut", "predict:mix"}
Updates == {"update", "update:R", "update:r", "update:args", "update:sensor", "update:ut", "update:none", "update:mix"}

Ops == CASE C = "KF"     -> KFPred \cup KFUpd \cup KFAsk \cup KFVar \cup KFSet
         [] C = "KFpred" -> KFPred \cup {"set:F", "set:Q", "set:alpha", "set:B", "set:x", "update"}
         [] C = "KFupd"  -> KFUpd \cup {"set:H", "set:R", "predict", "update:sensor"}
         [] C = "KFnone" -> {"update:none", "update_steadystate:none", "update_correlated:none", "predict", "update",
                             "update_correlated", "get_update:none"}
         [] C = "KFask"  -> KFAsk \cup {"predict", "predict:u", "update", "update:none", "set:x", "set:alpha"}
         [] C = "KFvar"  -> KFVar \cup {"predict", "update", "set:R", "set:B"}
         [] C = "EKF"    -> LF({"update:args", "update:wrap", "update:sensor", "predict_update", "predict_update:u", "predict_update:none"})
         [] C = "FADING" -> LF({"get_prediction", "get_prediction:u", "residual_of", "measurement_of_state", "batch", "batch:first"})
         [] C = "SR"     -> LF({"residual_of", "measurement_of_state"})
         [] C = "INFO"   -> LF({"P"})
         [] C = "HINF"   -> LF({"get_prediction", "get_prediction:u", "residual_of", "measurement_of_state", "batch",
                                "batch:first", "set:V", "set:W"}) \ {"update:R", "update:r", "set:R"}
         \* an update of a sigma point filter follows a predict
         [] C = "UKF"    -> Predicts \cup Updates \cup {"set:x", "set:P", "set:Q", "set:R", "batch"}
         [] C = "CKF"    -> {"predict", "predict:dt", "predict:args", "predict:mix", "update", "update:R", "update:r", "update:args",
                             "update:none", "update:mix", "set:x", "set:P", "set:Q", "set:R"}
         [] C = "IMM"    -> {"predict", "predict:u", "update", "update:far", "update:none"}
         [] C = "MMAE"   -> {"predict", "predict:u", "update", "update:far", "update:none", "update:R", "update:H"}
         [] OTHER -> {}

\* a steady state needs a gain, the likelihood of a measurement an S: some update came first
Can(op) == CASE op \in {"update_steadystate", "log_likelihood_of"} ->
                   Did({"update", "update:R", "update:r", "update_correlated"}) \/ C \in {"KFvar", "KFask"}
             [] C \in {"UKF", "CKF"} /\ op \in Updates ->
                  \/ Last \in Predicts
                  \/ /\ Len(h) > 1
                     /\ Last \in {"set:Q", "set:R"}
                     /\ h[Len(h) - 1] \in Predicts
             [] OTHER -> TRUE

Init == h = <<>>
Turn(op) == IOEnv.ALT = "1" /\ Len(h) >= 2 => op = h[Len(h) - 1]
Next == \E op \in Ops : Len(h) < Depth /\ Can(op) /\ Turn(op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT(ToJson(h))
=============================================================================
