---------------------------- MODULE TracePipeline ---------------------------
(***************************************************************************)
(* Recorded runs.  how: "done", "refused" (with a diagnostic), "usage"     *)
(* (the text of --help), "internal" (another exception), "hangs".  wrote:  *)
(* for every output asked for, whether it is there.  located: every line   *)
(* of the diagnostic names file, line and column (1), some does not though *)
(* schema text is refused or the place of a stray character is not among   *)
(* them (0), not required (2).  want: the outcome the    *)
(* specification of the pipeline gives for the configuration, "" when the  *)
(* input may go either way.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Events == Trace.ev

VARIABLES i, bad

Clause(r, holds) == IF holds THEN {} ELSE {r}

Reasons(e) ==
    Clause("prophyc does not end", e.how # "hangs")
    \cup Clause("prophyc ends with an internal exception", e.how # "internal")
    \cup Clause("prophyc refuses without saying why", e.how = "refused" => e.text = 1)
    \cup Clause("schema text is refused without its file, line and column", e.how = "refused" => e.located # 0)
    \cup Clause("prophyc succeeds without writing every output",
                e.how = "done" => \A x \in 1..Len(e.wrote) : e.wrote[x] = 1)
    \cup Clause("prophyc fails where it should succeed", e.want = "done" => e.how = "done")
    \cup Clause("prophyc succeeds where it should fail", e.want = "refused" => e.how # "done")

Init == i = 1 /\ bad = <<>>
Step == /\ i <= Len(Events)
        /\ LET why == Reasons(Events[i])
           IN bad' = IF why = {} THEN bad ELSE Append(bad, [i |-> i, why |-> SetToSeq(why)])
        /\ i' = i + 1
        /\ (i = Len(Events)) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Step]_<<i, bad>>
=============================================================================
