---------------------------- MODULE PenOperators ----------------------------
(* All chains of binary operators up to a length: the tree of a chain keeps the order of operands  *)
(* and operators, binds higher priorities tighter and groups equal priorities from the left.       *)
EXTENDS PenSyntax, TLC, Json
CONSTANTS Length, Operators
VARIABLE chain

Init == chain = <<>>
Next == Len(chain) < Length /\ \E op \in Operators : chain' = Append(chain, op)
Spec == Init /\ [][Next]_chain

Tokens == [i \in 1..(2 * Len(chain) + 1) |-> IF i % 2 = 1 THEN <<"id", "v", i>> ELSE <<"sg", chain[i \div 2], "">>]
Result == Expr(Tokens, 1).v

RECURSIVE InOrder(_), Binds(_)
InOrder(t) == IF t[1] = "var" THEN <<t[2]>> ELSE InOrder(t[4]) \o <<t[2]>> \o InOrder(t[5])
Binds(t) == t[1] = "var" \/
            /\ Binds(t[4]) /\ Binds(t[5])
            /\ t[4][1] = "bin" => Priority(t[4][3]) >= Priority(t[3])
            /\ t[5][1] = "bin" => Priority(t[5][3]) > Priority(t[3])
WellGrouped == InOrder(Result) = [i \in 1..Len(Tokens) |-> i] /\ Binds(Result)
Emit == chain # <<>> => PrintT("@@" \o ToJson([chain |-> chain, tree |-> Result]))
=============================================================================
