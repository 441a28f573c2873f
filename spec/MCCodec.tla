------------------------------ MODULE MCCodec -------------------------------
(***************************************************************************)
(* Exhaustive small scope: every struct of up to MaxFields fields over the *)
(* field kinds of a JSON library (environment variable LIB), every         *)
(* combination of value variants per field.  Run to completion by the      *)
(* encoder machine; each finished behaviour can be printed as JSON for     *)
(* replay on the real code.                                                *)
(***************************************************************************)
EXTENDS Encoder, Json, IOUtils

CONSTANT MaxFields

Lib == JsonDeserialize(IOEnv.LIB)
Kinds == Lib.kinds            (* sequence of sequences of members           *)
LibX == Analyse(Lib.defs)
DoPrint == IOEnv.PRINT = "1"

VARIABLES ks, vs              (* chosen kinds and value variants            *)

(* Representative values: variant 0 is empty / absent / first arm.         *)
RECURSIVE Rep(_, _, _)
RepField(Y, ms, k, var) ==
    LET m == ms[k]
        elem == IF m.t = "byte" THEN 200 ELSE Rep(Y, m.t, var)
        n == CASE m.a = "fix" -> m.n
               [] m.a = "lim" -> (CASE var = 0 -> 0 [] var = 1 -> 1 [] OTHER -> m.n)
               [] m.a = "opt" -> (IF var = 0 THEN 0 ELSE 1)
               [] OTHER -> (CASE var = 0 -> 0 [] var = 1 -> 1 [] OTHER -> 3)
    IN IF m.a = "plain"
       THEN IF SizedBy(ms, k) # <<>> THEN <<>> ELSE Rep(Y, m.t, var)
       ELSE [j \in 1..n |-> elem]
Rep(Y, t, var) ==
    LET kind == Y.K[t]
    IN CASE kind.k = "scalar" -> IF kind.r \in {"float", "double"} THEN Zeros(Y.L[t].sz)
                                 ELSE [j \in 1..Y.L[t].sz |-> j + 10 * var]
         [] kind.k = "enum" -> LET ms == Y.D[kind.r].m IN ms[1 + (var % Len(ms))].v
         [] kind.k = "union" -> LET ms == Y.D[kind.r].m
                                    a == IF var = 0 THEN 1 ELSE IF var = 1 THEN Len(ms) ELSE 1 + (Len(ms) \div 2)
                                IN <<a, Rep(Y, ms[a].t, var)>>
         [] kind.k = "struct" -> LET ms == Y.D[kind.r].m
                                 IN [k \in 1..Len(ms) |-> RepField(Y, ms, k, (var + k - 1) % 3)]

(* Members of the k-th field get distinct names by position.               *)
Renamed(m, k) == [m EXCEPT !.name = m.name \o ToString(k),
                           !.s = IF m.s = "" THEN "" ELSE m.s \o ToString(k)]
Members(kk) == FoldLeft(LAMBDA a, k: a \o [j \in 1..Len(Kinds[kk[k]]) |-> Renamed(Kinds[kk[k]][j], k)],
                        <<>>, [k \in 1..Len(kk) |-> k])
VarOf(kk, vv) == FoldLeft(LAMBDA a, k: a \o [j \in 1..Len(Kinds[kk[k]]) |-> vv[k]],
                          <<>>, [k \in 1..Len(kk) |-> k])

UnlimitedKind(k) == LET ms == Kinds[k]
                    IN \E j \in 1..Len(ms) : ms[j].a = "greedy" \/ (ms[j].a = "plain" /\ LibX.L[ms[j].t].st = Unlimited)

Init ==
    \E n \in 1..MaxFields :
      /\ ks \in [1..n -> 1..Len(Kinds)]
      /\ \A k \in 1..(n - 1) : ~UnlimitedKind(ks[k])
      /\ vs \in [1..n -> 0..2]
      /\ LET ms == Members(ks)
             va == VarOf(ks, vs)
         IN /\ X = AddDef(LibX, [k |-> "struct", name |-> "M", t |-> "", m |-> ms])
            /\ typ = "M"
            /\ val = [k \in 1..Len(ms) |-> RepField(X, ms, k, va[k])]
      /\ Start(typ, val)

Report == PrintT(<<"BEHAVIOUR", ToJson([ks |-> ks, v |-> val, le |-> Bytes(out, LE), be |-> Bytes(out, BE)])>>)

Finish == Done /\ DoPrint /\ Report /\ UNCHANGED <<encvars, ks, vs>>

Next == \/ EncodeStep /\ UNCHANGED <<ks, vs>>
        \/ Finish
Spec == Init /\ [][Next]_<<encvars, ks, vs>>

(* Decoding inverts encoding (design statement of C02), except where the   *)
(* greedy tail is followed by padding.                                     *)
TailPadded(ts) == Len(ts) > 0 /\ ts[Len(ts)].p = 1 /\ X.L[typ].st = Unlimited
RoundTrip ==
    Done /\ ~TailPadded(out) =>
      \A E \in {LE, BE} :
        LET r == Decode(X, typ, Bytes(out, E), E)
        IN r.ok /\ Flat(X, typ, r.v) = Flat(X, typ, val)

(* No proper prefix of an encoding without a greedy tail is decodable.     *)
PrefixFree ==
    Done /\ X.L[typ].st # Unlimited =>
      \A n \in 0..(pos - 1) : ~Decode(X, typ, SubSeq(Bytes(out, LE), 1, n), LE).ok
=============================================================================
