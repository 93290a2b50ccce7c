-------------------------------- MODULE Own --------------------------------
(***************************************************************************)
(* Who owns which array.  There are three kinds of holders, each a map     *)
(* from names to values:                                                   *)
(*    obj   the attributes of a filter                                     *)
(*    own   arrays of the caller: arguments he passed, arrays he assigned  *)
(*          to attributes                                                  *)
(*    hist  results handed out or snapshots taken earlier                  *)
(* An operation of the filter changes obj only.  When the caller writes    *)
(* into one of his argument arrays after the call, nothing else changes;   *)
(* when he writes into a result he was given, or into one attribute, no    *)
(* other holder changes.  `shared` lists the attributes which the caller   *)
(* himself made the same array as one of his own, by assigning it.         *)
(***************************************************************************)
EXTENDS Conform

Eq(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Close(a[k], b[k], 0, 0)
Changed(a, b) == {k \in DOMAIN a : k \notin DOMAIN b \/ ~Close(a[k], b[k], 0, 0)}

\* the filter did something: results keep their values, and so do the caller's arrays
AfterCall(s, o) == [own |-> Changed(s.own, o.own), hist |-> Changed(s.hist, o.hist)]
\* the caller wrote into his array `name`
AfterScribble(s, o, name) == [obj  |-> Changed(s.obj, o.obj), hist |-> Changed(s.hist, o.hist),
                              own  |-> Changed(s.own, o.own) \ {name}]
\* the caller wrote into the attribute `name` of the filter
AfterPoke(s, o, names) == [obj |-> Changed(s.obj, o.obj) \ names, hist |-> Changed(s.hist, o.hist),
                           own |-> Changed(s.own, o.own)]
=============================================================================
