----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common frame of the trace specs.  A trace file (environment variable    *)
(* TRACE) holds schemas and a sequence of events recorded from the real    *)
(* code; the instantiating module says with Reasons(e) which clauses of    *)
(* the specification an event violates.  One step per event; the verdicts  *)
(* are written to OUT when the whole trace has been consumed.              *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Events == Trace.ev
Schemas == Trace.schemas

VARIABLES i, bad

(* Clause r holds or is named.                                             *)
Clause(r, holds) == IF holds THEN {} ELSE {r}
=============================================================================
