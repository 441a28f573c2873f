------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* Every expression of up to Operands operands, Parens pairs of            *)
(* parentheses and Minuses unary minuses, with all operators.  The operand *)
(* in each position is fixed (a decimal, octal or hexadecimal literal or a *)
(* name), so the enumeration is over structure.  Expressions are printed   *)
(* with their value for replay in the compiler.                            *)
(***************************************************************************)
EXTENDS Expr, TLC, Json, IOUtils

CONSTANTS Operands, Parens, Minuses

DoPrint == IOEnv.PRINT = "1"

Tok(k) == [k |-> k, d |-> <<>>, n |-> 0]
Lit(k, d) == [k |-> k, d |-> d, n |-> 0]
Pool == << Lit("dec", <<2, 5, 7>>), Lit("hex", <<1, 3>>), Lit("oct", <<1, 1>>), [k |-> "name", d |-> <<>>, n |-> 1],
           Lit("dec", <<2>>) >>
Names == << FromNat(5) >>

VARIABLES ts, open, parens, minuses, operands, want

Init == ts = <<>> /\ open = 0 /\ parens = 0 /\ minuses = 0 /\ operands = 0 /\ want = "operand"

AddOperand == /\ want = "operand" /\ operands < Operands
              /\ ts' = Append(ts, Pool[operands + 1])
              /\ operands' = operands + 1 /\ want' = "operator"
              /\ UNCHANGED <<open, parens, minuses>>
AddMinus == /\ want = "operand" /\ minuses < Minuses
            /\ ts' = Append(ts, Tok("-")) /\ minuses' = minuses + 1
            /\ UNCHANGED <<open, parens, operands, want>>
Open == /\ want = "operand" /\ parens < Parens
        /\ ts' = Append(ts, Tok("(")) /\ parens' = parens + 1 /\ open' = open + 1
        /\ UNCHANGED <<minuses, operands, want>>
Close == /\ want = "operator" /\ open > 0
         /\ ts' = Append(ts, Tok(")")) /\ open' = open - 1
         /\ UNCHANGED <<minuses, operands, want, parens>>
Operator(o) == /\ want = "operator" /\ operands < Operands
               /\ ts' = Append(ts, Tok(o)) /\ want' = "operand"
               /\ UNCHANGED <<open, minuses, operands, parens>>

Complete == want = "operator" /\ open = 0
Report == LET r == Denotes(ts, Names)
          IN r.ok => PrintT(<<"EXPR", ToJson([ts |-> ts, neg |-> IF r.v.neg THEN 1 ELSE 0, m |-> r.v.m])>>)

Next == AddOperand \/ AddMinus \/ Open \/ Close \/ \E o \in Arithmetic : Operator(o)
Spec == Init /\ [][Next]_<<ts, open, parens, minuses, operands, want>>

(* Always true; as an invariant it prints every state once.                *)
Emit == (DoPrint /\ Complete) => Report

(* The whole expression in parentheses, or plus zero, denotes the same.    *)
Stable == Complete =>
    LET r == Denotes(ts, Names)
    IN /\ Denotes(<<Tok("(")>> \o ts \o <<Tok(")")>>, Names) = r
       /\ Denotes(ts \o <<Tok("+"), Lit("dec", <<0>>)>>, Names) = r
       /\ Denotes(<<Lit("dec", <<1>>), Tok("*"), Tok("(")>> \o ts \o <<Tok(")")>>, Names) = r
=============================================================================
