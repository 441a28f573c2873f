------------------------------ MODULE TraceExpr -----------------------------
(***************************************************************************)
(* Values of constant expressions seen in real tools.  Events of a program *)
(* come in definition order; "prog" starts one, "def" gives the tokens of  *)
(* an expression and what every tool made of it.                           *)
(***************************************************************************)
EXTENDS Expr, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Events == Trace.ev

VARIABLES i, bad, names

Clause(r, holds) == IF holds THEN {} ELSE {r}
Pow32 == Mk(FALSE, Pow2M(32))
(* Negative enumerators of isar stand for unsigned numbers.                *)
Value(e, v) == IF e.u32 = 1 /\ v.neg THEN Add(v, Pow32) ELSE v
Seen(o) == Mk(o.neg = 1, o.m)

Reasons(e, r) ==
    IF e.k = "prog" THEN {}
    ELSE IF ~r.ok THEN {"MACHINERY: expression outside of the domain"}
    ELSE UNION { Clause(e.obs[j].w, e.obs[j].ok = 1 /\ Seen(e.obs[j]) = Value(e, r.v)) : j \in 1..Len(e.obs) }

Init == i = 1 /\ bad = <<>> /\ names = <<>>
Step == /\ i <= Len(Events)
        /\ LET e == Events[i]
               r == IF e.k = "prog" THEN [ok |-> TRUE, v |-> Int0] ELSE Denotes(e.ts, names)
               why == Reasons(e, r)
           IN /\ names' = IF e.k = "prog" THEN <<>> ELSE IF e.keep = 1 THEN Append(names, Value(e, r.v)) ELSE names
              /\ bad' = IF why = {} THEN bad ELSE Append(bad, [i |-> i, why |-> SetToSeq(why)])
        /\ i' = i + 1
        /\ (i = Len(Events)) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Step]_<<i, bad, names>>
=============================================================================
