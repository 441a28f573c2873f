-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* Constant expressions of the schema languages.                           *)
(*                                                                         *)
(* An expression is a sequence of tokens [k, d, n]: k is "dec", "oct" or   *)
(* "hex" (a literal, digits d most significant first), "name" (the n-th    *)
(* name of the environment) or the token's own text.  Unary minus binds    *)
(* tightest, then shifts, then * and /, then + and -; binary operators are *)
(* left-associative.  Arithmetic is that of the integers.  Isar's          *)
(* shiftLeft(a, b) and bitMaskOr(a, b) stand for ((a) << (b)) and          *)
(* ((a) | (b)); "|" occurs in this form only.                              *)
(***************************************************************************)
EXTENDS Num

Base(k) == CASE k = "dec" -> 10 [] k = "oct" -> 8 [] k = "hex" -> 16
Arithmetic == {"+", "-", "*", "/", "<<", ">>"}
Binary == Arithmetic \cup {"|"}
Level(o) == CASE o \in {"+", "-"} -> 1 [] o \in {"*", "/"} -> 2 [] OTHER -> 3

MaxShift == 200
Small(a) == Len(a.m) <= 3 /\ Cmp(a, FromNat(MaxShift)) <= 0
RECURSIVE ToNat(_)
ToNat(m) == IF m = <<>> THEN 0 ELSE m[1] + 10 * ToNat(Tail(m))

(* Outside of its domain an operation denotes nothing (ok = FALSE):        *)
(* division by zero or with a negative operand, shifts by negative or      *)
(* enormous counts.                                                        *)
Apply(o, a, b) ==
    IF ~(a.ok /\ b.ok) THEN [ok |-> FALSE, v |-> Int0]
    ELSE CASE o = "+" -> [ok |-> TRUE, v |-> Add(a.v, b.v)]
           [] o = "-" -> [ok |-> TRUE, v |-> Sub(a.v, b.v)]
           [] o = "*" -> [ok |-> TRUE, v |-> Mul(a.v, b.v)]
           [] o = "/" -> IF a.v.neg \/ b.v.neg \/ b.v.m = <<>> THEN [ok |-> FALSE, v |-> Int0]
                         ELSE [ok |-> TRUE, v |-> TruncDiv(a.v, b.v)]
           [] o = "<<" -> IF b.v.neg \/ ~Small(b.v) THEN [ok |-> FALSE, v |-> Int0]
                          ELSE [ok |-> TRUE, v |-> Shl(a.v, ToNat(b.v.m))]
           [] o = "|" -> IF a.v.neg \/ b.v.neg THEN [ok |-> FALSE, v |-> Int0]
                         ELSE [ok |-> TRUE, v |-> Or(a.v, b.v)]
           [] o = ">>" -> IF b.v.neg \/ ~Small(b.v) THEN [ok |-> FALSE, v |-> Int0]
                          ELSE [ok |-> TRUE, v |-> Shr(a.v, ToNat(b.v.m))]

(* Precedence climbing.  Results [x, p]: denotation and next position.     *)
RECURSIVE Operand(_, _, _)
RECURSIVE Climb(_, _, _, _)
RECURSIVE Loop(_, _, _, _)
Operand(ts, names, p) ==
    LET t == ts[p]
    IN CASE t.k = "-" -> LET r == Operand(ts, names, p + 1)
                         IN [x |-> [ok |-> r.x.ok, v |-> Neg(r.x.v)], p |-> r.p]
         [] t.k = "(" -> LET r == Climb(ts, names, p + 1, 1) IN [x |-> r.x, p |-> r.p + 1]
         [] t.k = "name" -> [x |-> [ok |-> TRUE, v |-> names[t.n]], p |-> p + 1]
         [] OTHER -> [x |-> [ok |-> TRUE, v |-> OfDigits(t.d, Base(t.k))], p |-> p + 1]
Loop(ts, names, left, level) ==
    IF left.p <= Len(ts) /\ ts[left.p].k \in Binary /\ Level(ts[left.p].k) >= level
    THEN LET o == ts[left.p].k
             right == Climb(ts, names, left.p + 1, Level(o) + 1)
         IN Loop(ts, names, [x |-> Apply(o, left.x, right.x), p |-> right.p], level)
    ELSE left
Climb(ts, names, p, level) == Loop(ts, names, Operand(ts, names, p), level)

Denotes(ts, names) == Climb(ts, names, 1, 1).x
=============================================================================
