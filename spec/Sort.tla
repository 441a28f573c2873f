-------------------------------- MODULE Sort --------------------------------
(***************************************************************************)
(* The order of definitions.  Definitions are 1..n; deps[k] is the set (as *)
(* a sequence) of definitions k uses.  An output order is right when it    *)
(* has every definition exactly once and each after what it uses.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Complete(out, n) == /\ Len(out) = n
                    /\ \A k \in 1..n : \E j \in 1..Len(out) : out[j] = k

Uses(deps, k) == { deps[k][j] : j \in 1..Len(deps[k]) }

Ordered(out, deps) ==
    \A j \in 1..Len(out) : out[j] \in 1..Len(deps) =>
        \A d \in Uses(deps, out[j]) : d \in 1..Len(deps) => \E m \in 1..(j - 1) : out[m] = d

(* What may be written next after the definitions in done.                 *)
Ready(deps, done) == { k \in 1..Len(deps) : k \notin done /\ Uses(deps, k) \subseteq done }

(* Which kinds of definitions can use which.                               *)
MayUse(a, b) == CASE a \in {"const", "enum"} -> b \in {"const", "enum"}
                  [] a = "typedef" -> b \in {"enum", "typedef", "struct", "union"}
                  [] OTHER -> TRUE
Shape(k, uses) == k = "typedef" => Len(uses) <= 1
=============================================================================
