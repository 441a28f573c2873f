----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Trace spec of the codecs.  Events (k):                                  *)
(*   enc   a Python message given value v was encoded both ways            *)
(*   dec   bytes were decoded into a fresh Python message                  *)
(*   cppb, cppd   a C++ object was built / bytes were decoded, re-encoded  *)
(*   cpps  sizes reported by the C++ codec                                 *)
(*   raw, swap    raw C++ structs: offsets / bytes swapped in place        *)
(*   txt   text of equal messages in both languages                        *)
(*   mir   both byte orders of one message (Python or C++)                 *)
(*   mod   layout of a type as prophyc computed it                         *)
(*   lay   statics of a type                                               *)
(*   fuz, cfz     arbitrary bytes decoded in Python / C++                  *)
(***************************************************************************)
EXTENDS TraceBase, Text

XS == [k \in 1..Len(Schemas) |-> Analyse(Schemas[k])]

EncReasons(e) ==
    LET ts == Enc(XS[e.s], e.t, e.v)
    IN Clause("little endian bytes are not the canonical encoding", e.le = Bytes(ts, LE))
       \cup Clause("big endian bytes are not the canonical encoding", e.be = Bytes(ts, BE))

(* e.b is the harness' idea of the canonical bytes: a mismatch is an error *)
(* of the machinery.  n = consumed length (-1: decode raised).             *)
DecReasons(e) ==
    LET X == XS[e.s]
        canon == Encode(X, e.t, e.v, e.e)
        back == Decode(X, e.t, canon, e.e)
    IN IF canon # e.b THEN {"MACHINERY: generator bytes differ from the specification"}
       ELSE IF ~back.ok \/ Flat(X, e.t, back.v) # Flat(X, e.t, e.v)
       THEN {"MACHINERY: specification decoder does not invert its encoder"}
       ELSE IF e.n = -1 THEN {"decode refused a canonical encoding"}
       ELSE Clause("consumed length differs from input length", e.n = Len(e.b))
            \cup Clause("decoded value differs", e.f = Flat(X, e.t, e.v))
            \cup Clause("re-encoding differs", e.r = e.b)

(* C++ full codec.  cppb: object built field by field with value v, then  *)
(* encoded; cppd: canonical bytes decoded, result re-encoded.  le/be/na    *)
(* are the vector encodings (<<-1>> if the call crashed).                  *)
CppSame(e, ts) ==
    Clause("C++ little endian encoding is not canonical", e.le = Bytes(ts, LE))
    \cup Clause("C++ big endian encoding is not canonical", e.be = Bytes(ts, BE))
    \cup Clause("C++ native encoding is not the host order", e.na = Bytes(ts, LE))

CppBuiltReasons(e) == CppSame(e, Enc(XS[e.s], e.t, e.v))

CppDecReasons(e) ==
    LET ts == Enc(XS[e.s], e.t, e.v)
    IN IF Bytes(ts, e.e) # e.b THEN {"MACHINERY: generator bytes differ from the specification"}
       ELSE IF e.ok # 1 THEN {"C++ decode refused a canonical encoding"}
       ELSE CppSame(e, ts)

(* C05.  v may overfill limited arrays; only the first n elements count.   *)
(* pn: bytes the three pointer encoders reported.                          *)
CppSizeReasons(e) ==
    LET X == XS[e.s]
        n == TokLen(Enc(X, e.t, Clip(X, e.t, e.v)))
    IN IF e.sz = -1 THEN {"C++ encode crashed or left its buffer"}
       ELSE Clause("get_byte_size differs from the encoded length", e.sz = n)
            \cup Clause("pointer encode reports a different length than get_byte_size",
                        \A k \in 1..3 : e.pn[k] = e.sz)
            \cup Clause("vector encode returns a different length than get_byte_size",
                        /\ Len(e.le) = e.sz /\ Len(e.be) = e.sz /\ Len(e.na) = e.sz)
            \cup Clause("encoded_byte_size of a fixed type differs from get_byte_size",
                        X.L[e.t].st = Fixed => e.eb = e.sz)

(* Raw header: offsets in wire order, each block relative to its start.    *)
RawReasons(e) ==
    LET X == XS[e.s]
        r == X.K[e.t].r
    IN Clause("a raw member is not at its wire offset", e.offs = RawOffsets(X, r))
       \cup Clause("sizeof differs from the wire size", X.L[r].st = Fixed => e.size = X.L[r].sz)

(* Known finding: where the unlimited member is in a part, swap returns its *)
(* address rounded up to the alignment of the struct.                      *)
SwapRounded(X, t, pre) ==
    LET ws == X.W[X.K[t].r]
    IN IF ws[Len(ws)].blk > 1 THEN pre + Pad(pre, X.L[t].al) ELSE pre

(* Raw swap of foreign (big endian) bytes b in place.                      *)
SwapReasons(e) ==
    LET X == XS[e.s]
        ts == Enc(X, e.t, e.v)
        pre == UnlimitedPos(X, e.t, e.v)
        native == Bytes(ts, LE)
    IN IF Bytes(ts, BE) # e.b THEN {"MACHINERY: generator bytes differ from the specification"}
       ELSE Clause("swap changed bytes outside the message or crashed", e.intact = 1)
            \cup IF X.L[e.t].st = Unlimited
                 THEN Clause("members before the unlimited one are not native",
                             Len(e.out) >= pre /\ SubSeq(e.out, 1, pre) = SubSeq(native, 1, pre))
                      \cup IF e.ret = pre THEN {}
                           ELSE IF e.ret = SwapRounded(X, e.t, pre)
                           THEN {"address of an unlimited member in a part is rounded up"}
                           ELSE {"swap does not return the address of the unlimited member"}
                 ELSE Clause("swapped message is not the native encoding", e.out = native)
                      \cup Clause("swap does not return the end of the message", e.ret = Len(e.b))

TextReasons(e) ==
    LET txt == TextOf(XS[e.s], e.t, e.v)
    IN Clause("Python text differs", e.py = txt) \cup Clause("C++ text differs", e.cpp = txt)

(* C19.  Where the tokens of a message lie is taken from the               *)
(* specification; what the bytes are is not.                               *)
MirrorReasons(e) ==
    LET ts == Enc(XS[e.s], e.t, e.v)
        n == TokLen(ts)
        step(acc, t) ==
          LET w == Len(t.b)
              lo == [k \in 1..w |-> e.le[acc.off + k]]
              hi == [k \in 1..w |-> e.be[acc.off + k]]
          IN [off |-> acc.off + w,
              mirror |-> acc.mirror /\ lo = Reverse(hi),
              zero |-> acc.zero /\ (t.p = 1 => lo = Zeros(w) /\ hi = Zeros(w))]
        r == FoldLeft(step, [off |-> 0, mirror |-> TRUE, zero |-> TRUE], ts)
    IN Clause("the two byte orders differ in length", Len(e.le) = Len(e.be))
       \cup Clause("native is not the host byte order", e.na = e.le)
       \cup IF Len(e.le) # Len(e.be) THEN {}
            ELSE IF Len(e.le) # n THEN {"encoded length is not that of the message"}
            ELSE Clause("a scalar is not reversed between the byte orders", r.mirror)
                 \cup Clause("a padding byte is not zero", r.zero)

(* C17.  Layout of a type in the model, from whichever front-end.          *)
ModelReasons(e) ==
    LET l == XS[e.s].L[e.t]
    IN Clause("alignment computed by prophyc", e.mal = l.al)
       \cup Clause("stiffness computed by prophyc", e.mst = l.st)
       \cup Clause("size computed by prophyc", e.msz = l.sz)

(* C04.  m*: prophyc's model, p*: Python class, eb: encoded_byte_size,     *)
(* raw: sizeof of the raw struct, mb: size and padding of the model's      *)
(* members, lens: lengths of observed encodings.                           *)
ModelOffsets(ms, ws) ==
    LET step(acc, j) ==
          LET base == IF j > 1 /\ ws[j].blk # ws[j-1].blk THEN 0 ELSE acc.off
          IN [off |-> base + ms[j][1] + (IF ms[j][2] > 0 THEN ms[j][2] ELSE 0), out |-> Append(acc.out, base)]
    IN FoldLeft(step, [off |-> 0, out |-> <<>>], [j \in 1..Len(ws) |-> j])

LayoutReasons(e) ==
    LET X == XS[e.s]
        r == X.K[e.t].r
        l == X.L[r]
        fixed == l.st = Fixed
        struct == X.D[r].k = "struct"
        mo == ModelOffsets(e.mb, X.W[r])
    IN Clause("alignment computed by prophyc", e.mal = l.al)
       \cup Clause("stiffness computed by prophyc", e.mst = l.st)
       \cup Clause("size computed by prophyc", e.msz = l.sz)
       \cup Clause("alignment of the Python class", e.pal = l.al)
       \cup Clause("stiffness of the Python class", e.pst = l.st)
       \cup Clause("size of the Python class", fixed => e.psz = l.sz)
       \cup Clause("C++ encoded_byte_size", e.eb = IF fixed THEN l.sz ELSE -1)
       \cup Clause("raw C++ size", fixed => e.raw = l.sz)
       \cup Clause("length of an encoding of a fixed type",
                   fixed => \A k \in 1..Len(e.lens) : e.lens[k] = l.sz)
       \cup IF ~struct THEN {}
            ELSE Clause("sizes of members computed by prophyc",
                        /\ Len(e.mb) = Len(X.W[r])
                        /\ \A k \in 1..Len(e.mb) : e.mb[k][1] = X.W[r][k].sz)
                 \cup IF Len(e.mb) # Len(X.W[r]) THEN {}
                      ELSE Clause("padding between members computed by prophyc", mo.out = BlockOffsets(X.W[r]))
                           \cup Clause("padding after the last member computed by prophyc",
                                       (fixed /\ e.mb # <<>>) => mo.off = l.sz)

(* C06.  Any bytes b into a fresh Python message: o = "ok" or "prophy"     *)
(* (ProphyError) or something else; mem and ms measured.  f/r: value and   *)
(* encoding of the message, n2, f2, r2: the same after decoding r.         *)
FuzzReasons(e) ==
    IF e.o = "prophy" THEN Clause("decode allocated out of proportion", e.mem = 1)
    ELSE IF e.o # "ok" THEN {"decode ended neither by returning nor by ProphyError"}
    ELSE Clause("decode allocated out of proportion", e.mem = 1)
         \cup IF e.r = <<-1>> THEN {"a decoded message does not encode"}
              ELSE Clause("re-decoding changes the value", e.f2 = e.f)
                   \cup Clause("re-encoding changes the bytes", e.r2 = e.r)
                   \cup Clause("re-decoding does not consume the encoding", e.n2 = Len(e.r))

(* C07.  ok = 1 accepted, 0 refused, -1 crashed.  sz = size of the         *)
(* re-encoded object.                                                      *)
CppFuzzReasons(e) ==
    LET X == XS[e.s]
        d == Decode(X, e.t, e.b, e.e)
    IN IF e.ok = -1 THEN {"C++ decode left its input, crashed or asked for too much memory"}
       ELSE Clause("C++ decode allocated out of proportion", e.mem <= 4096 + 2048 * Len(e.b))
            \cup IF e.ok = 0 THEN {}
                 ELSE Clause("C++ decode accepted bytes that are not one whole message", d.ok)
                      \cup Clause("accepted input re-encodes to another length",
                                  e.sz = Len(e.b) /\ Len(e.le) = Len(e.b) /\ Len(e.be) = Len(e.b))

Reasons(e) == CASE e.k = "enc" -> EncReasons(e)
                [] e.k = "dec" -> DecReasons(e)
                [] e.k = "cppb" -> CppBuiltReasons(e)
                [] e.k = "cppd" -> CppDecReasons(e)
                [] e.k = "cpps" -> CppSizeReasons(e)
                [] e.k = "raw" -> RawReasons(e)
                [] e.k = "swap" -> SwapReasons(e)
                [] e.k = "txt" -> TextReasons(e)
                [] e.k = "mir" -> MirrorReasons(e)
                [] e.k = "lay" -> LayoutReasons(e)
                [] e.k = "mod" -> ModelReasons(e)
                [] e.k = "fuz" -> FuzzReasons(e)
                [] e.k = "cfz" -> CppFuzzReasons(e)

Init == i = 1 /\ bad = <<>>
Step == /\ i <= Len(Events)
        /\ i' = i + 1
        /\ LET r == Reasons(Events[i])
           IN bad' = IF r = {} THEN bad ELSE Append(bad, [i |-> i, why |-> SetToSeq(r)])
        /\ i = Len(Events) => JsonSerialize(IOEnv.OUT, [n |-> i, bad |-> bad'])
Spec == Init /\ [][Step]_<<i, bad>>
=============================================================================
