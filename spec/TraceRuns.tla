------------------------------ MODULE TraceRuns -----------------------------
(***************************************************************************)
(* Recorded runs over the same files (world w) and with the same options,  *)
(* which differ in everything else.  outs holds digests of the generated   *)
(* files.  The trace is accepted when there is one function from generated *)
(* files to digests all runs of a world agree with.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Events == Trace.ev

VARIABLES i, bad, world, memo

Clause(r, holds) == IF holds THEN {} ELSE {r}
Nothing == [x \in {} |-> ""]
Known(e) == IF e.w = world THEN memo ELSE Nothing

Reasons(e) ==
    LET m == Known(e)
    IN Clause("files which compile in one run do not in another", e.ok = 1)
       \cup Clause("a generated file differs between runs",
                   \A k \in 1..Len(e.outs) : e.outs[k].f \in DOMAIN m => m[e.outs[k].f] = e.outs[k].d)
       \cup Clause("a file is not generated in every run",
                   e.ok = 1 => \A k \in 1..Len(e.due) : \E n \in 1..Len(e.outs) : e.outs[n].f = e.due[k])

Learned(e) == LET m == Known(e)
                  new == {k \in 1..Len(e.outs) : e.outs[k].f \notin DOMAIN m}
              IN m @@ [f \in {e.outs[k].f : k \in new} |-> (CHOOSE o \in {e.outs[k] : k \in new} : o.f = f).d]

Init == i = 1 /\ bad = <<>> /\ world = -1 /\ memo = Nothing
Step == /\ i <= Len(Events)
        /\ LET why == Reasons(Events[i])
           IN bad' = IF why = {} THEN bad ELSE Append(bad, [i |-> i, why |-> SetToSeq(why)])
        /\ world' = Events[i].w
        /\ memo' = Learned(Events[i])
        /\ i' = i + 1
        /\ (i = Len(Events)) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Step]_<<i, bad, world, memo>>
=============================================================================
