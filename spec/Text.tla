-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text rendering of messages: what str() gives in Python and print() in   *)
(* C++, as a sequence of character codes.                                  *)
(***************************************************************************)
EXTENDS Codec, Num

NL == 10
SP == 32
QUOTE == 39
DQUOTE == 34
BACKSLASH == 92

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n

(* Bytes are quoted; the quote is ' unless the bytes hold a ' and no ".    *)
QuoteFor(bs) == IF Contains(bs, QUOTE) /\ ~Contains(bs, DQUOTE) THEN DQUOTE ELSE QUOTE
Escaped(b, q) ==
    CASE b = 9 -> <<BACKSLASH, 116>>
      [] b = 10 -> <<BACKSLASH, 110>>
      [] b = 13 -> <<BACKSLASH, 114>>
      [] b \in {BACKSLASH, q} -> <<BACKSLASH, b>>
      [] b >= 32 /\ b <= 126 -> <<b>>
      [] OTHER -> <<BACKSLASH, 120, HexDigit(b \div 16), HexDigit(b % 16)>>
BytesText(bs) ==
    LET q == QuoteFor(bs)
    IN FoldLeft(LAMBDA a, b: a \o Escaped(b, q), <<q>>, bs) \o <<q>>

(* Floats whose shortest decimal form both languages agree on.             *)
FloatTexts == <<
    [b |-> <<0, 0, 0, 63>>, t |-> <<48, 46, 53>>],                           (* 0.5     *)
    [b |-> <<0, 0, 80, 192>>, t |-> <<45, 51, 46, 50, 53>>],                 (* -3.25   *)
    [b |-> <<0, 80, 154, 68>>, t |-> <<49, 50, 51, 52, 46, 53>>],            (* 1234.5  *)
    [b |-> <<0, 0, 0, 62>>, t |-> <<48, 46, 49, 50, 53>>],                   (* 0.125   *)
    [b |-> <<0, 0, 0, 0, 0, 0, 224, 63>>, t |-> <<48, 46, 53>>],
    [b |-> <<0, 0, 0, 0, 0, 0, 10, 192>>, t |-> <<45, 51, 46, 50, 53>>],
    [b |-> <<0, 0, 0, 0, 0, 74, 147, 64>>, t |-> <<49, 50, 51, 52, 46, 53>>],
    [b |-> <<0, 0, 0, 0, 0, 0, 192, 63>>, t |-> <<48, 46, 49, 50, 53>>] >>
FloatText(b) ==
    LET hit == SelectSeq(FloatTexts, LAMBDA f: f.b = b)
    IN IF hit = <<>> THEN <<63>> ELSE hit[1].t

ScalarText(X, t, v) ==
    LET kind == X.K[t]
    IN IF kind.k = "enum"
       THEN LET hit == SelectSeq(X.D[kind.r].m, LAMBDA m: m.v = v)
            IN IF hit = <<>> THEN DecText(Mk(FALSE, OfBytes(v))) ELSE hit[Len(hit)].c
       ELSE IF kind.r \in {"float", "double"} THEN FloatText(v)
       ELSE IF kind.r \in Signed THEN DecText(OfTwos(v))
       ELSE DecText(Mk(FALSE, OfBytes(v)))

Spaces(n) == [i \in 1..n |-> SP]

RECURSIVE Render(_, _, _, _)
(* One occurrence of a field.                                              *)
FieldText(X, t, v, name, ind) ==
    IF X.K[t].k \in {"struct", "union"}
    THEN Spaces(2 * ind) \o name \o <<SP, 123, NL>> \o Render(X, t, v, ind + 1) \o Spaces(2 * ind) \o <<125, NL>>
    ELSE Spaces(2 * ind) \o name \o <<58, SP>> \o ScalarText(X, t, v) \o <<NL>>

MemberText(X, ms, i, v, ind) ==
    LET m == ms[i]
    IN CASE m.a = "plain" -> IF SizedBy(ms, i) # <<>> THEN <<>> ELSE FieldText(X, m.t, v, m.c, ind)
         [] m.t = "byte" -> Spaces(2 * ind) \o m.c \o <<58, SP>> \o BytesText(v) \o <<NL>>
         [] OTHER -> FoldLeft(LAMBDA a, e: a \o FieldText(X, m.t, e, m.c, ind), <<>>, v)

Render(X, t, v, ind) ==
    LET kind == X.K[t]
        ms == X.D[kind.r].m
    IN IF kind.k = "union" THEN FieldText(X, ms[v[1]].t, v[2], ms[v[1]].c, ind)
       ELSE FoldLeft(LAMBDA a, i: a \o MemberText(X, ms, i, v[i], ind), <<>>, [i \in 1..Len(ms) |-> i])

TextOf(X, t, v) == Render(X, t, v, 0)
=============================================================================
