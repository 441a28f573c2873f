----------------------------- MODULE TraceFiles -----------------------------
(***************************************************************************)
(* Compilations of schemas in several files.  "load": an arrangement with  *)
(* what prophyc made of it (0 = refused, and the constants of the main     *)
(* files).  "part": what a split schema and its concatenation came to mean *)
(* (constants, layouts), which must be the same.                           *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils, SequencesExt

Trace == JsonDeserialize(IOEnv.TRACE)
Events == Trace.ev

VARIABLES i, bad

Clause(r, holds) == IF holds THEN {} ELSE {r}

LoadReasons(e) ==
    LET r == Outcome(e.fs, e.dirs, e.mains)
    IN Clause("missing or cyclic include not reported", r.ok \/ e.ok = 0)
       \cup Clause("arrangement refused", r.ok => e.ok = 1)
       \cup Clause("an include is resolved to another file",
                   (r.ok /\ e.ok = 1) => \A k \in 1..Len(e.mains) : e.vals[k] = r.done[e.mains[k]])
       \cup Clause("a file is processed more than once", e.once = 1)

PartReasons(e) ==
    Clause("split schema is refused", e.ok = 1)
    \cup Clause("constants differ from the concatenated schema", e.ok = 1 => e.c1 = e.c2)
    \cup Clause("layouts differ from the concatenated schema", e.ok = 1 => e.l1 = e.l2)
    \cup Clause("generated C++ differs in sizes or values", e.ok = 1 => e.x1 = e.x2)
    \cup Clause("a file is processed more than once", e.once = 1)

Reasons(e) == CASE e.k = "load" -> LoadReasons(e) [] e.k = "part" -> PartReasons(e)

Init == i = 1 /\ bad = <<>>
Step == /\ i <= Len(Events)
        /\ LET why == Reasons(Events[i])
           IN bad' = IF why = {} THEN bad ELSE Append(bad, [i |-> i, why |-> SetToSeq(why)])
        /\ i' = i + 1
        /\ (i = Len(Events)) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Step]_<<i, bad>>
=============================================================================
