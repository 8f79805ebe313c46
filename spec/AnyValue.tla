------------------------------ MODULE AnyValue ------------------------------
(* Meaning of dynamically typed values (property C03): a value wrapped as `any` is given back only as its own     *)
(* type, copies are independent instances with equal contents, every instance is destroyed exactly once.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Types, MaxLen, Emitting
VARIABLES slot, made, gone, hist     \* made/gone: payload instances created and destroyed so far
vars == <<slot, made, gone, hist>>
Empty == [ty |-> "none", v |-> 0]
Free == {s \in Slots : slot[s].ty = "none"}
Lowest(S) == CHOOSE s \in S : \A u \in S : s <= u
Held == Slots \ Free
Log(op, args, ok, v) == hist' = Append(hist, [op |-> op, args |-> args, ok |-> ok, v |-> v, live |-> made' - gone',
                                              seen |-> [s \in Slots |-> [ty |-> slot'[s].ty, v |-> slot'[s].v]]])
Init == slot = [s \in Slots |-> Empty] /\ made = 0 /\ gone = 0 /\ hist = <<>>
Wrap(ty) == /\ Free # {}
            /\ LET s == Lowest(Free) IN
               /\ slot' = [slot EXCEPT ![s] = [ty |-> ty, v |-> made + 1]] /\ made' = made + 1 /\ gone' = gone
               /\ Log("wrap", <<s, ty, made + 1>>, TRUE, 0)
Clone(s) == /\ s \in Held /\ Free # {}
            /\ LET d == Lowest(Free) IN
               /\ slot' = [slot EXCEPT ![d] = slot[s]] /\ made' = made + 1 /\ gone' = gone
               /\ Log("clone", <<s, d>>, TRUE, 0)
Drop(s) == /\ s \in Held /\ slot' = [slot EXCEPT ![s] = Empty] /\ gone' = gone + 1 /\ made' = made
           /\ Log("drop", <<s>>, TRUE, 0)
\* conversion by value consumes the dynamic value whether or not it is of the type asked for
Take(s, ty) == /\ s \in Held /\ slot' = [slot EXCEPT ![s] = Empty] /\ gone' = gone + 1 /\ made' = made
               /\ LET ok == slot[s].ty = ty IN Log("take", <<s, ty>>, ok, IF ok THEN slot[s].v ELSE 0)
Peek(s, ty) == /\ s \in Held /\ UNCHANGED <<slot, made, gone>>
               /\ LET ok == slot[s].ty = ty IN Log("peek", <<s, ty>>, ok, IF ok THEN slot[s].v ELSE 0)
Poke(s, ty) == /\ s \in Held /\ UNCHANGED <<made, gone>>
               /\ LET ok == slot[s].ty = ty IN
                  /\ slot' = IF ok THEN [slot EXCEPT ![s].v = 50 + Len(hist)] ELSE slot
                  /\ Log("poke", <<s, ty, 50 + Len(hist)>>, ok, 0)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E ty \in Types : Wrap(ty)
           \/ \E s \in Slots : Clone(s) \/ Drop(s) \/ \E ty \in Types : Take(s, ty) \/ Peek(s, ty) \/ Poke(s, ty)
Spec == Init /\ [][Next]_vars
Balanced == made - gone = Cardinality(Held)
Emit == (Emitting /\ Len(hist) = MaxLen) => PrintT("@@" \o ToJson(hist))
=============================================================================
