------------------------------ MODULE TraceSort -----------------------------
(***************************************************************************)
(* Output orders of prophyc.  "set" gives definitions and what they use;   *)
(* every "run" is one order of the input: the order that came out, whether *)
(* the generated code could be used and the layouts of all the types.      *)
(***************************************************************************)
EXTENDS Sort, Integers, TLC, Json, IOUtils, SequencesExt

Trace == JsonDeserialize(IOEnv.TRACE)
Events == Trace.ev

VARIABLES i, bad, deps, first

Clause(r, holds) == IF holds THEN {} ELSE {r}

Reasons(e) ==
    IF e.k = "set" THEN {}
    ELSE Clause("a definition is missing, repeated or unknown", Complete(e.out, Len(deps)))
         \cup Clause("a definition comes before one it uses", Ordered(e.out, deps))
         \cup Clause("the generated Python module does not import", e.py = 1)
         \cup Clause("the generated C++ does not compile", e.cc # 0)
         \cup Clause("layouts differ between orders of the same definitions", first = <<>> \/ e.lay = first[1])

Init == i = 1 /\ bad = <<>> /\ deps = <<>> /\ first = <<>>
Step == /\ i <= Len(Events)
        /\ LET e == Events[i]
               why == Reasons(e)
           IN /\ deps' = IF e.k = "set" THEN e.deps ELSE deps
              /\ first' = IF e.k = "set" THEN <<>> ELSE IF first = <<>> THEN <<e.lay>> ELSE first
              /\ bad' = IF why = {} THEN bad ELSE Append(bad, [i |-> i, why |-> SetToSeq(why)])
        /\ i' = i + 1
        /\ (i = Len(Events)) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Step]_<<i, bad, deps, first>>
=============================================================================
