------------------------------ MODULE ContStack ------------------------------
(* Meaning of the continuation stack (property C04): a stack of values of different sizes. `cap` and `used` mirror *)
(* the growth of the byte buffer so that TLC's exploration covers every growth situation; the values popped do     *)
(* not depend on them.                                                                                             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Types, Capacities, MaxLen, MaxDepth
VARIABLES st, cap0, cap, used, grown, hist
vars == <<st, cap0, cap, used, grown, hist>>
Size(t) == CASE t = "unit" -> 0 [] t = "u8" -> 8 [] t = "f64" -> 8 [] t = "b12" -> 16 [] t = "w3" -> 24 [] t = "w9" -> 72 [] OTHER -> 8
Round(c) == 8 * ((c + 7) \div 8)
RECURSIVE Grow(_, _)
Grow(c, need) == IF need <= c THEN c ELSE Grow(2 * c, need)
Init == /\ cap0 \in Capacities /\ cap = Round(cap0) /\ used = 0 /\ st = <<>> /\ grown = 0 /\ hist = <<>>
Push(t) == /\ Len(st) < MaxDepth
           /\ used' = used + Size(t) /\ cap' = Grow(cap, used')
           /\ grown' = IF cap' > cap THEN grown + 1 ELSE grown
           /\ st' = Append(st, [t |-> t, v |-> Len(hist) + 1])
           /\ hist' = Append(hist, [op |-> "push", t |-> t, v |-> Len(hist) + 1])
           /\ UNCHANGED cap0
Pop == /\ st # <<>>
       /\ LET x == st[Len(st)] IN
          /\ used' = used - Size(x.t)
          /\ hist' = Append(hist, [op |-> "pop", t |-> x.t, v |-> x.v])
       /\ st' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED <<cap, cap0, grown>>
Next == Len(hist) < MaxLen /\ (Pop \/ \E t \in Types : Push(t))
Spec == Init /\ [][Next]_vars
Fits == used <= cap
Emit == Len(hist) = MaxLen => PrintT("@@" \o ToJson([cap |-> cap0, grown |-> grown, hist |-> hist]))
=============================================================================
