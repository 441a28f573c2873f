---------------------------- MODULE TraceMessage ----------------------------
(***************************************************************************)
(* Histories of API calls on a few Python messages of one type (C10, C11). *)
(*   new   n fresh messages of type t                                      *)
(*   op    operation e.op at path e.p of message e.o; afterwards the       *)
(*         observed values of all messages (f) and, when e.enc is not <<>>,*)
(*         the encoding of message e.o (<<-1>>: ProphyError, <<-2>>: other)*)
(*         r is what a call which only looks at an array has told          *)
(*   copy  copy_from: message e.o at e.p becomes that of e.o2 at e.p2      *)
(*   take  decode: message e.o at e.p becomes v, whose encoding b is       *)
(* The state of the specification is threaded through; after a mismatch    *)
(* the rest of that history is skipped.                                    *)
(***************************************************************************)
EXTENDS TraceBase, Message

VARIABLES heap, lost

XS == [k \in 1..Len(Schemas) |-> Analyse(Schemas[k])]

(* values named by references <<object, path>>, of type t                  *)
Sources(X, e, t) ==
    LET one(q) == Get(X, e.t, heap[q[1]], q[2])
        same(q) == X.K[TypeAt(X, e.t, q[2])].r = X.K[t].r
    IN IF \A j \in 1..Len(e.src) : same(e.src[j]) THEN Yes([j \in 1..Len(e.src) |-> one(e.src[j])]) ELSE No(<<>>)

Outcome(X, e) ==
    CASE e.k = "take" -> Yes(Put(X, e.t, heap[e.o], e.p, e.v))
      [] e.k = "copy" -> Yes(Put(X, e.t, heap[e.o], e.p, Get(X, e.t, heap[e.o2], e.p2)))
      [] e.op = "extendc" ->
           LET ms == X.D[X.K[TypeAt(X, e.t, e.p)].r].m
           IN Do(X, e.t, heap[e.o], [op |-> e.op, k |-> e.m, p |-> e.p, a |-> e.a, l |-> e.l, x |-> e.x, sl |-> e.sl,
                                     kw |-> e.kw, src |-> Sources(X, e, ms[e.m].t)])
      [] OTHER -> Do(X, e.t, heap[e.o], [op |-> IF e.op = "setsizer" THEN "set" ELSE e.op, k |-> e.m, p |-> e.p,
                                         a |-> e.a, l |-> e.l, x |-> e.x, sl |-> e.sl, kw |-> e.kw, src |-> <<>>])

Judge(X, e, r, after) ==
    LET seen == IF e.f = <<>> THEN TRUE ELSE \A j \in 1..Len(after) : e.f[j] = Flat(X, e.t, after[j])
        own == e.f = <<>> \/ e.f[e.o] = Flat(X, e.t, after[e.o])
    IN IF e.out = "hangs" THEN {"an operation does not end"} ELSE
       Clause("an allowed operation was refused", r.ok => e.out = "ok")
       \cup Clause("a forbidden operation was accepted", ~r.ok => e.out # "ok")
       \cup Clause("an operation was refused with the wrong exception",
                   e.out = "ok" \/ r.ok \/ e.out \in {"prophy"} \cup ListErrors(e.op))
       \cup Clause(IF r.ok THEN "the message does not hold what the operation leaves"
                   ELSE "a refused operation changed the message", own)
       \cup Clause("an array tells something else than it holds",
                   e.op \in Reads /\ r.ok /\ e.out = "ok" =>
                   LET at == TypeAt(X, e.t, e.p)
                   IN e.r = Told(X, X.D[X.K[at].r].m, Get(X, e.t, after[e.o], e.p), [op |-> e.op, k |-> e.m, l |-> e.l, x |-> e.x, sl |-> e.sl]))
       \cup Clause("another message changed", ~own \/ seen)
       \cup IF e.enc = <<>> \/ ~own THEN {}
            ELSE IF Encodable(X, e.t, after[e.o])
            THEN Clause("the message does not encode to what it holds", e.enc = Encode(X, e.t, after[e.o], LE))
            ELSE Clause("arrays of unequal lengths sharing a sizer are not refused", e.enc = <<-1>>)

Init == i = 1 /\ bad = <<>> /\ heap = <<>> /\ lost = FALSE

Advance(e, r) ==
    /\ i' = i + 1
    /\ bad' = IF r = {} THEN bad ELSE Append(bad, [i |-> i, why |-> SetToSeq(r)])
    /\ i = Len(Events) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> bad'])

Step ==
    /\ i <= Len(Events)
    /\ LET e == Events[i]
           X == XS[e.s]
       IN IF e.k = "new"
          THEN /\ heap' = [j \in 1..e.n |-> Default(X, e.t)]
               /\ lost' = FALSE
               /\ Advance(e, {})
          ELSE IF lost THEN Advance(e, {}) /\ UNCHANGED <<heap, lost>>
          ELSE IF ~Exists(X, e.t, heap[e.o], e.p) \/ (e.k = "copy" /\ ~Exists(X, e.t, heap[e.o2], e.p2))
          THEN Advance(e, {"MACHINERY: no such place"}) /\ UNCHANGED <<heap, lost>>
          ELSE IF e.k = "take" /\ Encode(X, TypeAt(X, e.t, e.p), e.v, e.e) # e.b
          THEN Advance(e, {"MACHINERY: not the encoding"}) /\ UNCHANGED <<heap, lost>>
          ELSE LET r == Outcome(X, e)
                   after == [heap EXCEPT ![e.o] = r.v]
                   why == Judge(X, e, r, after)
               IN /\ heap' = after
                  /\ lost' = (why # {})
                  /\ Assert(Valid(X, e.t, r.v), "specification leaves the valid messages")
                  /\ Advance(e, why)
Spec == Init /\ [][Step]_<<i, bad, heap, lost>>
=============================================================================
