------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Canonical encoding, decoding and value flattening.                      *)
(*                                                                         *)
(* Values (X is an analysed schema, see Schema):                           *)
(*   scalar, enum   bytes, least significant first                         *)
(*   struct         sequence indexed like the surface fields; counters     *)
(*                  hold <<>> (they are derived)                           *)
(*   optional       <<>> or <<value>>                                      *)
(*   array          sequence of values; bytes fields: sequence of 0..255   *)
(*   union          <<arm index, value>>                                   *)
(*                                                                         *)
(* An encoding is a sequence of tokens [p, b]: p = 1 for padding, b the    *)
(* bytes of one scalar, least significant first.                           *)
(***************************************************************************)
EXTENDS Schema

LE == "<"
BE == ">"

Zeros(n) == [i \in 1..n |-> 0]
PadTok(n) == IF n = 0 THEN <<>> ELSE [i \in 1..n |-> [p |-> 1, b |-> <<0>>]]
Tok(b) == << [p |-> 0, b |-> b] >>

Pow256 == <<1, 256, 65536, 16777216>>
CountBytes(n, w) == [i \in 1..w |-> IF i <= 4 THEN (n \div Pow256[i]) % 256 ELSE 0]

TokLen(ts) == FoldLeft(LAMBDA a, t: a + Len(t.b), 0, ts)

(* The sequences joined, in halves: long ones would take quadratic time    *)
(* one by one.                                                             *)
RECURSIVE JoinPart(_, _, _)
JoinPart(seqs, lo, hi) ==
    IF lo > hi THEN <<>>
    ELSE IF lo = hi THEN seqs[lo]
    ELSE LET mid == (lo + hi) \div 2 IN JoinPart(seqs, lo, mid) \o JoinPart(seqs, mid + 1, hi)
Join(seqs) == JoinPart(seqs, 1, Len(seqs))

Bytes(ts, E) == Join([i \in 1..Len(ts) |-> IF E = LE THEN ts[i].b ELSE Reverse(ts[i].b)])

---------------------------------------------------------------------------
RECURSIVE Enc(_, _, _)

EncSeq(X, t, vs) ==
    IF t = "byte" THEN [i \in 1..Len(vs) |-> [p |-> 0, b |-> <<vs[i]>>]]
    ELSE IF ~IsComposite(X, t) THEN [i \in 1..Len(vs) |-> [p |-> 0, b |-> vs[i]]]
    ELSE Join([i \in 1..Len(vs) |-> Enc(X, t, vs[i])])

EncMember(X, w, v) ==
    CASE w.a = "plain"  -> Enc(X, w.t, v[w.src])
      [] w.a = "size"   -> Tok(CountBytes(Len(v[w.cnt[1]]), X.L[w.t].sz))
      [] w.a = "opt"    -> IF v[w.src] = <<>>
                           THEN Tok(Zeros(FlagWidth)) \o PadTok(w.sz - FlagWidth)
                           ELSE Tok(CountBytes(1, FlagWidth)) \o PadTok(w.al - FlagWidth)
                                \o Enc(X, w.t, v[w.src][1])
      [] w.a = "lim"    -> LET e == EncSeq(X, w.t, v[w.src])
                           IN e \o PadTok((w.n - Len(v[w.src])) * X.L[w.t].sz)
      [] OTHER          -> EncSeq(X, w.t, v[w.src])

EncStruct(X, t, v) ==
    LET ws == X.W[t]
        step(acc, w) ==
          LET p == Pad(acc.off, w.ea)
              e == EncMember(X, w, v)
          IN [off |-> acc.off + p + TokLen(e), out |-> acc.out \o PadTok(p) \o e]
        r == FoldLeft(step, [off |-> 0, out |-> <<>>], ws)
    IN r.out \o PadTok(Pad(r.off, X.L[t].al))

EncUnion(X, t, v) ==
    LET arm == X.D[t].m[v[1]]
        al == X.L[t].al
        e == Enc(X, arm.t, v[2])
    IN Tok(arm.v) \o PadTok(al - DiscWidth) \o e
       \o PadTok(X.L[t].sz - al - TokLen(e))

Enc(X, t, v) ==
    LET kind == X.K[t]
    IN CASE kind.k \in {"scalar", "enum"} -> Tok(v)
         [] kind.k = "struct"             -> EncStruct(X, kind.r, v)
         [] kind.k = "union"              -> EncUnion(X, kind.r, v)

Encode(X, t, v, E) == Bytes(Enc(X, t, v), E)

(* Offset, within the encoding of v, of the last (unlimited) wire member   *)
(* of the outermost struct.                                                *)
UnlimitedPos(X, t, v) ==
    IF X.L[t].st # Unlimited THEN 0
    ELSE LET ws == X.W[X.K[t].r]
             step(off, i) ==
               LET o == off + Pad(off, ws[i].ea)
               IN IF i = Len(ws) THEN o ELSE o + TokLen(EncMember(X, ws[i], v))
         IN FoldLeft(step, 0, [i \in 1..Len(ws) |-> i])

(* Lengths of arrays sharing a sizer must agree for a value to be          *)
(* encodable.                                                              *)
RECURSIVE Encodable(_, _, _)
Encodable(X, t, v) ==
    LET kind == X.K[t]
    IN CASE kind.k \in {"scalar", "enum"} -> TRUE
         [] kind.k = "union" -> Encodable(X, X.D[kind.r].m[v[1]].t, v[2])
         [] kind.k = "struct" ->
              \A i \in 1..Len(X.W[kind.r]) :
                 LET w == X.W[kind.r][i]
                 IN CASE w.a = "size" -> \A j \in 1..Len(w.cnt) : Len(v[w.cnt[j]]) = Len(v[w.cnt[1]])
                      [] w.a = "plain" -> Encodable(X, w.t, v[w.src])
                      [] w.t = "byte" \/ ~IsComposite(X, w.t) -> TRUE
                      [] OTHER -> \A j \in 1..Len(v[w.src]) : Encodable(X, w.t, v[w.src][j])

(* Limited arrays cut to their limit (the C++ codec lets them be           *)
(* overfilled and encodes the first n elements).                           *)
RECURSIVE Clip(_, _, _)
Clip(X, t, v) ==
    LET kind == X.K[t]
    IN CASE kind.k \in {"scalar", "enum"} -> v
         [] kind.k = "union" -> <<v[1], Clip(X, X.D[kind.r].m[v[1]].t, v[2])>>
         [] kind.k = "struct" ->
              LET ms == X.D[kind.r].m
                  one(i) ==
                    LET m == ms[i]
                        x == IF m.a \in {"lim", "xlim"} /\ Len(v[i]) > m.n THEN SubSeq(v[i], 1, m.n) ELSE v[i]
                    IN IF m.t = "byte" THEN x
                       ELSE IF m.a = "plain" THEN (IF SizedBy(ms, i) # <<>> THEN x ELSE Clip(X, m.t, x))
                       ELSE [j \in 1..Len(x) |-> Clip(X, m.t, x[j])]
              IN [i \in 1..Len(ms) |-> one(i)]

---------------------------------------------------------------------------
(* Flattening: a type-directed sequence of integers, so that values of any *)
(* shape can be compared.                                                  *)

RECURSIVE Flat(_, _, _)
Flat(X, t, v) ==
    LET kind == X.K[t]
    IN CASE kind.k \in {"scalar", "enum"} -> v
         [] kind.k = "union" -> <<v[1]>> \o Flat(X, X.D[kind.r].m[v[1]].t, v[2])
         [] kind.k = "struct" ->
              LET ms == X.D[kind.r].m
                  one(i) ==
                    LET m == ms[i]
                    IN CASE m.a = "plain" -> IF SizedBy(ms, i) # <<>> THEN <<>> ELSE Flat(X, m.t, v[i])
                         [] m.t = "byte" -> <<Len(v[i])>> \o v[i]
                         [] OTHER -> <<Len(v[i])>> \o Join([j \in 1..Len(v[i]) |-> Flat(X, m.t, v[i][j])])
              IN FoldLeft(LAMBDA a, i: a \o one(i), <<>>, [i \in 1..Len(ms) |-> i])

---------------------------------------------------------------------------
(* Decoding of bytes B (1-based), positions 0-based, end exclusive.        *)
(* Result [ok, pos, v].  Bounds are strict; padding contents, enumerator   *)
(* values and non-zero flags are not judged.                               *)

Fail == [ok |-> FALSE, pos |-> 0, v |-> <<>>]
Ok(pos, v) == [ok |-> TRUE, pos |-> pos, v |-> v]

ReadLE(B, E, pos, w) ==
    IF E = LE THEN [i \in 1..w |-> B[pos + i]] ELSE [i \in 1..w |-> B[pos + w + 1 - i]]

(* Count as a number, or -1 when negative or too large to be served.       *)
CountOf(b, signed) ==
    LET w == Len(b)
        neg == signed /\ b[w] >= 128
        big == \/ \E i \in 5..w : b[i] # 0
               \/ w >= 4 /\ b[4] >= 8
    IN IF neg \/ big THEN -1
       ELSE FoldLeft(LAMBDA a, i: a + b[i] * Pow256[i], 0, [i \in 1..(IF w > 4 THEN 4 ELSE w) |-> i])

RECURSIVE Dec(_, _, _, _, _, _)
RECURSIVE DecN(_, _, _, _, _, _, _, _)
RECURSIVE DecAll(_, _, _, _, _, _, _)

(* exactly n elements *)
DecN(X, t, B, E, pos, end, n, acc) ==
    IF n = 0 THEN Ok(pos, acc)
    ELSE LET r == Dec(X, t, B, E, pos, end)
         IN IF ~r.ok THEN Fail ELSE DecN(X, t, B, E, r.pos, end, n - 1, Append(acc, r.v))

(* elements up to the end; bytes that make no element are left to be      *)
(* padding                                                                 *)
DecAll(X, t, B, E, pos, end, acc) ==
    IF pos >= end THEN Ok(pos, acc)
    ELSE LET r == Dec(X, t, B, E, pos, end)
         IN IF ~r.ok THEN Ok(pos, acc) ELSE DecAll(X, t, B, E, r.pos, end, Append(acc, r.v))

DecScalars(X, t, B, E, pos, end, n) ==
    LET w == X.L[t].sz
    IN IF n * w > end - pos THEN Fail
       ELSE Ok(pos + n * w, [i \in 1..n |-> ReadLE(B, E, pos + (i - 1) * w, w)])

DecElems(X, t, B, E, pos, end, n) ==
    IF t = "byte"
    THEN IF pos + n > end THEN Fail ELSE Ok(pos + n, [i \in 1..n |-> B[pos + i]])
    ELSE IF n > end - pos THEN Fail
    ELSE IF ~IsComposite(X, t) THEN DecScalars(X, t, B, E, pos, end, n)
    ELSE DecN(X, t, B, E, pos, end, n, <<>>)

DecMember(X, w, B, E, pos, end, cnts) ==
    CASE w.a = "plain" -> Dec(X, w.t, B, E, pos, end)
      [] w.a = "size" ->
           IF pos + X.L[w.t].sz > end THEN Fail
           ELSE LET n == CountOf(ReadLE(B, E, pos, X.L[w.t].sz), X.K[w.t].r \in Signed)
                IN IF n < 0 THEN Fail ELSE Ok(pos + X.L[w.t].sz, n)
      [] w.a = "opt" ->
           IF pos + w.sz > end THEN Fail
           ELSE IF ReadLE(B, E, pos, FlagWidth) = Zeros(FlagWidth) THEN Ok(pos + w.sz, <<>>)
           ELSE LET r == Dec(X, w.t, B, E, pos + w.al, end)
                IN IF r.ok THEN Ok(r.pos, <<r.v>>) ELSE Fail
      [] w.a = "fix" -> DecElems(X, w.t, B, E, pos, end, w.n)
      [] w.a = "dyn" -> DecElems(X, w.t, B, E, pos, end, cnts[w.src])
      [] w.a = "lim" ->
           IF cnts[w.src] > w.n \/ pos + w.sz > end THEN Fail
           ELSE LET r == DecElems(X, w.t, B, E, pos, end, cnts[w.src])
                IN IF r.ok THEN Ok(pos + w.sz, r.v) ELSE Fail
      [] w.a = "greedy" ->
           IF w.t = "byte" THEN Ok(end, [i \in 1..(end - pos) |-> B[pos + i]])
           ELSE IF ~IsComposite(X, w.t) THEN DecScalars(X, w.t, B, E, pos, end, (end - pos) \div X.L[w.t].sz)
           ELSE DecAll(X, w.t, B, E, pos, end, <<>>)

DecStruct(X, t, B, E, start, end) ==
    LET ws == X.W[t]
        nm == Len(X.D[t].m)
        step(acc, w) ==
          IF ~acc.ok THEN acc
          ELSE LET p == acc.pos + Pad(acc.pos - start, w.ea)
               IN IF p > end THEN [acc EXCEPT !.ok = FALSE]
                  ELSE LET r == DecMember(X, w, B, E, p, end, acc.cnts)
                       IN IF ~r.ok THEN [acc EXCEPT !.ok = FALSE]
                          ELSE IF w.a = "size"
                          THEN [acc EXCEPT !.pos = r.pos,
                                           !.cnts = [i \in 1..nm |->
                                              IF \E j \in 1..Len(w.cnt) : w.cnt[j] = i THEN r.v ELSE @[i]]]
                          ELSE [acc EXCEPT !.pos = r.pos, !.vs = [@ EXCEPT ![w.src] = r.v]]
        r == FoldLeft(step, [ok |-> TRUE, pos |-> start, cnts |-> [i \in 1..nm |-> 0],
                             vs |-> [i \in 1..nm |-> <<>>]], ws)
        q == r.pos + Pad(r.pos - start, X.L[t].al)
    IN IF ~r.ok \/ q > end THEN Fail ELSE Ok(q, r.vs)

DecUnion(X, t, B, E, pos, end) ==
    IF pos + X.L[t].sz > end THEN Fail
    ELSE LET d == ReadLE(B, E, pos, DiscWidth)
             arms == X.D[t].m
             hit == SelectSeq([i \in 1..Len(arms) |-> i], LAMBDA i: arms[i].v = d)
         IN IF hit = <<>> THEN Fail
            ELSE LET r == Dec(X, arms[hit[1]].t, B, E, pos + X.L[t].al, end)
                 IN IF r.ok THEN Ok(pos + X.L[t].sz, <<hit[1], r.v>>) ELSE Fail

Dec(X, t, B, E, pos, end) ==
    LET kind == X.K[t]
    IN CASE kind.k \in {"scalar", "enum"} ->
              IF pos + X.L[t].sz > end THEN Fail
              ELSE Ok(pos + X.L[t].sz, ReadLE(B, E, pos, X.L[t].sz))
         [] kind.k = "struct" -> DecStruct(X, kind.r, B, E, pos, end)
         [] kind.k = "union"  -> DecUnion(X, kind.r, B, E, pos, end)

Decode(X, t, B, E) ==
    LET r == Dec(X, t, B, E, 0, Len(B))
    IN IF r.ok /\ r.pos = Len(B) THEN r ELSE Fail
=============================================================================
