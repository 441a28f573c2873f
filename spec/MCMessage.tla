----------------------------- MODULE MCMessage ------------------------------
(***************************************************************************)
(* Every history of up to Depth operations from a menu, on small message   *)
(* types.  Cases (JSON file LIB): definitions, a type, a menu of operation *)
(* records.  The histories with the values they must leave are printed for *)
(* replay on the real API.                                                 *)
(***************************************************************************)
EXTENDS Message, Json, IOUtils

CONSTANT Depth

Cases == JsonDeserialize(IOEnv.LIB)
XC == [c \in 1..Len(Cases) |-> Analyse(Cases[c].defs)]
DoPrint == IOEnv.PRINT = "1"

VARIABLES case, val, hist, outs

X == XC[case]
T == Cases[case].t
Menu == Cases[case].menu

Init == case \in 1..Len(Cases) /\ val = Default(XC[case], Cases[case].t) /\ hist = <<>> /\ outs = <<>>

Call(n) ==
    LET e == Menu[n]
    IN /\ Exists(X, T, val, e.p) = TRUE
       /\ LET r == Do(X, T, val, [op |-> e.op, k |-> e.m, p |-> e.p, a |-> e.a, l |-> e.l, x |-> e.x, sl |-> e.sl,
                                  kw |-> e.kw, src |-> Yes(<<>>)])
          IN /\ val' = r.v
             /\ hist' = Append(hist, n)
             /\ outs' = Append(outs, IF r.ok THEN 1 ELSE 0)
       /\ UNCHANGED case

Report == PrintT(<<"HISTORY", ToJson([c |-> case, h |-> hist, o |-> outs, f |-> Flat(X, T, val),
                                      e |-> IF Encodable(X, T, val) THEN Encode(X, T, val, LE) ELSE <<-1>>])>>)

Next == /\ Len(hist) < Depth
        /\ \E n \in 1..Len(Menu) : Call(n)
Emit == DoPrint /\ hist # <<>> => Report
Spec == Init /\ [][Next]_<<case, val, hist, outs>>

(* C10: every reachable message is valid, ...                              *)
AlwaysValid == Valid(X, T, val)
(* ... and decodes from its own encoding.                                  *)
AlwaysEncodable ==
    Encodable(X, T, val) /\ XC[case].L[T].st # Unlimited =>
      LET r == Decode(X, T, Encode(X, T, val, BE), BE) IN r.ok /\ Flat(X, T, r.v) = Flat(X, T, val)
=============================================================================
