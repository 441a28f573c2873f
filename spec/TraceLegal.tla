----------------------------- MODULE TraceLegal -----------------------------
(***************************************************************************)
(* What prophyc and its back-ends made of definitions (event "text": in    *)
(* the prophy language, "set": isar, "open": may be refused for its names).*)
(* acc: prophyc succeeded; diag: it    *)
(* ended with a message of its own; py, full, raw, run: the generated      *)
(* Python module imports, the generated C++ compiles, the runtime library  *)
(* takes the same definitions (1 yes, 0 no, 2 not asked).                  *)
(***************************************************************************)
EXTENDS Legal, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Events == Trace.ev

VARIABLES i, bad

Clause(r, holds) == IF holds THEN {} ELSE {r}

Reasons(e) ==
    LET legal == CASE e.k = "text" -> LegalText(e.defs)
                   [] e.k = "set" -> LegalSet(e.defs)
                   [] e.k = "open" -> e.acc = 1
    IN Clause("a schema breaking a rule is accepted", e.acc = 1 => legal)
       \cup Clause("a legal schema is refused", e.acc = 0 => ~legal)
       \cup Clause("a schema is refused without a diagnostic", e.acc = 0 => e.diag = 1)
       \cup Clause("the generated Python module does not import", e.py # 0)
       \cup Clause("the generated C++ full codec does not compile", e.full # 0)
       \cup Clause("the generated raw C++ does not compile", e.raw # 0)
       \cup Clause("the runtime library refuses a legal schema", e.run = 0 => ~legal)
       \cup Clause("the runtime library takes what does not compose", (e.run = 1 /\ InOrder(e.defs) /\ NamesLegal(e.defs)) => AllComposable(e.defs))

Init == i = 1 /\ bad = <<>>
Step == /\ i <= Len(Events)
        /\ LET why == Reasons(Events[i])
           IN bad' = IF why = {} THEN bad ELSE Append(bad, [i |-> i, why |-> SetToSeq(why)])
        /\ i' = i + 1
        /\ (i = Len(Events)) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Step]_<<i, bad>>
=============================================================================
