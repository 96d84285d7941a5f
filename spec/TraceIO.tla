------------------------------ MODULE TraceIO ------------------------------
(* The recorded events of one run of the implementation.                      *)
EXTENDS Json, IOUtils, TLC, Sequences, Naturals, FiniteSets, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* A named obligation of the current event: when it fails the event is not a
\* step of the specification, and the name says why.
Must(l, name, ok) ==
  IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].ev, name>>) /\ FALSE
=============================================================================
