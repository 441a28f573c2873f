------------------------------- MODULE MCSort -------------------------------
(***************************************************************************)
(* Every acyclic set of N definitions (numbered along the dependencies)    *)
(* over the kinds of definitions, with every order they can be written in. *)
(* One branch writes definitions out as they get ready and shows that the  *)
(* output is always completed and right; the other enumerates the orders   *)
(* of the input, printed for replay in prophyc.                            *)
(***************************************************************************)
EXTENDS Sort, TLC, Json, IOUtils, SequencesExt, FiniteSets

CONSTANTS N, Kinds

DoPrint == IOEnv.PRINT = "1"

VARIABLES kinds, deps, phase, perm, out
vars == <<kinds, deps, phase, perm, out>>

Init == kinds = <<>> /\ deps = <<>> /\ phase = "build" /\ perm = <<>> /\ out = <<>>

Define == /\ phase = "build" /\ Len(deps) < N
          /\ \E k \in Kinds, u \in SUBSET (1..Len(deps)) :
                LET us == SetToSeq(u)
                IN /\ \A d \in u : MayUse(k, kinds[d])
                   /\ Shape(k, us)
                   /\ kinds' = Append(kinds, k) /\ deps' = Append(deps, us)
          /\ UNCHANGED <<phase, perm, out>>
Start == /\ phase = "build" /\ Len(deps) = N
         /\ phase' \in {"order", "write"}
         /\ UNCHANGED <<kinds, deps, perm, out>>
Place == /\ phase = "order" /\ Len(perm) < N
         /\ \E k \in (1..N) \ ToSet(perm) : perm' = Append(perm, k)
         /\ UNCHANGED <<kinds, deps, phase, out>>
Write == /\ phase = "write" /\ Len(out) < N
         /\ \E k \in Ready(deps, ToSet(out)) : out' = Append(out, k)
         /\ UNCHANGED <<kinds, deps, phase, perm>>

Next == Define \/ Start \/ Place \/ Write
Spec == Init /\ [][Next]_vars

NeverStuck == (phase = "write" /\ Len(out) < N) => Ready(deps, ToSet(out)) # {}
AlwaysRight == /\ Ordered(out, deps)
               /\ (phase = "write" /\ Len(out) = N) => Complete(out, N)
Emit == (DoPrint /\ phase = "order" /\ Len(perm) = N) =>
        PrintT(<<"ORDER", ToJson([kinds |-> kinds, deps |-> deps, perm |-> perm])>>)
=============================================================================
