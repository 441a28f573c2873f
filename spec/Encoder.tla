------------------------------ MODULE Encoder -------------------------------
(***************************************************************************)
(* The encoder as a state machine: an agenda of work items is expanded     *)
(* item by item and scalars and padding are appended to the output.  This  *)
(* is the operational reading of docs/encoding.rst; the recursive operator *)
(* Codec!Enc is its denotational reading, and MCCodec checks that both     *)
(* agree.                                                                  *)
(***************************************************************************)
EXTENDS Codec

VARIABLES X,        (* analysed schema                                      *)
          typ, val, (* the message being encoded                            *)
          todo,     (* agenda                                               *)
          out,      (* tokens emitted so far                                *)
          pos       (* number of bytes emitted so far                       *)

encvars == <<X, typ, val, todo, out, pos>>

(* Agenda items, uniform records.                                          *)
Item(op, t, v, n) == [op |-> op, t |-> t, v |-> v, n |-> n]
Value(t, v) == Item("value", t, v, 0)
Align(al) == Item("align", "", <<>>, al)          (* pad to a multiple      *)
FillTo(n) == Item("fill", "", <<>>, n)            (* zero fill n bytes      *)
Emit(b) == Item("emit", "", b, 0)

Start(t, v) == todo = << Value(t, v) >> /\ out = <<>> /\ pos = 0

Elements(t, vs) ==
    IF t = "byte" THEN [k \in 1..Len(vs) |-> Emit(<<vs[k]>>)]
    ELSE [k \in 1..Len(vs) |-> Value(t, vs[k])]

MemberItems(w, v) ==
    << Align(w.ea) >> \o
    CASE w.a = "plain"  -> << Value(w.t, v[w.src]) >>
      [] w.a = "size"   -> << Emit(CountBytes(Len(v[w.cnt[1]]), X.L[w.t].sz)) >>
      [] w.a = "opt"    -> IF v[w.src] = <<>> THEN << Emit(Zeros(4)), FillTo(w.sz - 4) >>
                           ELSE << Emit(<<1, 0, 0, 0>>), Align(w.al), Value(w.t, v[w.src][1]) >>
      [] w.a = "lim"    -> Elements(w.t, v[w.src])
                           \o << FillTo((w.n - Len(v[w.src])) * X.L[w.t].sz) >>
      [] OTHER          -> Elements(w.t, v[w.src])

Head1 == Head(todo)
Kind(t) == X.K[t]

EmitScalar ==
    /\ todo # <<>>
    /\ \/ Head1.op = "emit"
       \/ Head1.op = "value" /\ Kind(Head1.t).k \in {"scalar", "enum"}
    /\ out' = Append(out, [p |-> 0, b |-> Head1.v])
    /\ pos' = pos + Len(Head1.v)
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<X, typ, val>>

EmitPadding ==
    /\ todo # <<>>
    /\ Head1.op \in {"align", "fill"}
    /\ LET n == IF Head1.op = "align" THEN Pad(pos, Head1.n) ELSE Head1.n
       IN out' = out \o PadTok(n) /\ pos' = pos + n
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<X, typ, val>>

OpenStruct ==
    /\ todo # <<>>
    /\ Head1.op = "value"
    /\ Kind(Head1.t).k = "struct"
    /\ LET ws == X.W[Kind(Head1.t).r]
           items == FoldLeft(LAMBDA a, w: a \o MemberItems(w, Head1.v), <<>>, ws)
       IN todo' = items \o << Align(X.L[Head1.t].al) >> \o Tail(todo)
    /\ UNCHANGED <<X, typ, val, out, pos>>

OpenUnion ==
    /\ todo # <<>>
    /\ Head1.op = "value"
    /\ Kind(Head1.t).k = "union"
    /\ LET r == Kind(Head1.t).r
           arm == X.D[r].m[Head1.v[1]]
           rest == X.L[r].sz - X.L[r].al - X.L[arm.t].sz
       IN todo' = << Emit(arm.v), Align(X.L[r].al), Value(arm.t, Head1.v[2]), FillTo(rest) >>
                  \o Tail(todo)
    /\ UNCHANGED <<X, typ, val, out, pos>>

EncodeStep == EmitScalar \/ EmitPadding \/ OpenStruct \/ OpenUnion
Done == todo = <<>>

---------------------------------------------------------------------------
(* Properties of the design.                                               *)

Offsets(ts) ==
    FoldLeft(LAMBDA a, t: [o |-> a.o + Len(t.b), s |-> Append(a.s, a.o)],
             [o |-> 0, s |-> <<>>], ts).s

ScalarsAligned == \A k \in 1..Len(out) : Offsets(out)[k] % Len(out[k].b) = 0
PaddingZero == \A k \in 1..Len(out) : out[k].p = 1 => out[k].b = <<0>>
PosIsLength == pos = TokLen(out)

AgreesWithCodec == Done => out = Enc(X, typ, val)
EndsAligned == Done => pos % X.L[typ].al = 0
FixedSize == Done /\ X.L[typ].st = Fixed => pos = X.L[typ].sz
AtLeastSize == Done => pos >= X.L[typ].sz

(* Little and big endian differ only by reversal inside scalars.           *)
Mirror(bytes, ts) ==
    FoldLeft(LAMBDA a, t: [o |-> a.o + Len(t.b),
                           s |-> a.s \o Reverse(SubSeq(bytes, a.o + 1, a.o + Len(t.b)))],
             [o |-> 0, s |-> <<>>], ts).s
MirrorLaw == Done => Mirror(Bytes(out, LE), out) = Bytes(out, BE)
=============================================================================
