----------------------------- MODULE TraceLoop -----------------------------
(***************************************************************************)
(* Checking recorded executions of the code against a specification.       *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds one trace per    *)
(* line, a trace being the sequence of events recorded on one object:      *)
(*    e.ev  the public operation that was called                           *)
(*    e.a   its arguments                                                  *)
(*    e.o   what the API shows afterwards (attributes and return values)   *)
(*    e.x   "" or the exception that the call raised                       *)
(* Every trace is an initial state; a behaviour consumes one trace.  The   *)
(* state st of the specification is what was observed after the last       *)
(* event, so rounding never accumulates, and an event conforms when        *)
(* Failing(st, e) -- the names of the clauses of the specification which   *)
(* the event breaks -- is empty.  A trace is abandoned at its first        *)
(* failing event.  The harness accepts when the number of states that TLC  *)
(* found is the number of events plus the number of traces.                *)
(***************************************************************************)
EXTENDS Conform, IOUtils
CONSTANT Failing(_, _),     \* the clauses broken by an event in a state
         After(_, _)        \* the specification state after the event
VARIABLES tr, l, st
Traces == ReadTrace(IOEnv.TRACE)

TraceInit == tr \in 1..Len(Traces) /\ l = 0 /\ st = "NONE"
TraceNext ==
  /\ l >= 0 /\ l < Len(Traces[tr])
  /\ UNCHANGED tr
  /\ LET e == Traces[tr][l + 1]
         bad == Failing(st, e)
     IN IF bad = {}
        THEN l' = l + 1 /\ st' = After(st, e)
        ELSE /\ PrintT(ToString(<<"FAIL", tr, l + 1, e.ev, bad>>))
             /\ l' = -1 /\ st' = "NONE"
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, st>>
View == <<tr, l>>
=============================================================================
