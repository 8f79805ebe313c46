----------------------------- MODULE StateImpl -----------------------------
(* How threads share a state: an access takes the value out of the cell, leaving it empty, and others wait until a value
   is back (or, with Waiting = FALSE, find none in the meantime: then reads are wrong and writes are lost). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Counts, Waiting, Show

C_StateImpl == <<<<3,3>>,<<2,2,2>>>>
C_StateImplF == <<<<2,2>>>>
C_StateImplT == <<<<3,3>>,<<2,2,2>>,<<4,4>>,<<3,3,2>>>>
Ops == {"get", "set"}
Progs(n) == [1..n -> Ops]
Programs == UNION {{p \in [1..Len(Counts[c]) -> UNION {Progs(Counts[c][t]) : t \in 1..Len(Counts[c])}] : \A t \in 1..Len(Counts[c]) : p[t] \in Progs(Counts[c][t])} : c \in DOMAIN Counts}
ValueOf(t, j) == 10 * t + j

VARIABLES prog, pc, slot, hand, last, good
vars == <<prog, pc, slot, hand, last, good>>
Empty == -1
Init == /\ prog \in Programs
        /\ pc = [t \in DOMAIN prog |-> <<1, "take">>]
        /\ slot = 0 /\ hand = [t \in DOMAIN prog |-> 0] /\ last = 0 /\ good = TRUE
Active(t, step) == pc[t][1] <= Len(prog[t]) /\ pc[t][2] = step
Take(t) == /\ Active(t, "take")
           /\ Waiting => slot # Empty
           /\ hand' = [hand EXCEPT ![t] = IF slot = Empty THEN 0 ELSE slot]
           /\ slot' = Empty
           /\ pc' = [pc EXCEPT ![t] = <<pc[t][1], "put">>]
           /\ UNCHANGED <<prog, last, good>>
Put(t) == /\ Active(t, "put")
          /\ LET j == pc[t][1] IN
             IF prog[t][j] = "get" THEN slot' = hand[t] /\ good' = (good /\ hand[t] = last) /\ UNCHANGED last
             ELSE slot' = ValueOf(t, j) /\ last' = ValueOf(t, j) /\ UNCHANGED good
          /\ pc' = [pc EXCEPT ![t] = <<pc[t][1] + 1, "take">>]
          /\ UNCHANGED <<prog, hand>>
Next == \E t \in DOMAIN prog : Take(t) \/ Put(t)
Spec == Init /\ [][Next]_vars
(* Every read gives the value that was written last when it put the value back; writes stay until the next. *)
Linear == good /\ (slot # Empty => slot = last)
(* No thread waits for ever. *)
Over == \A t \in DOMAIN prog : pc[t][1] > Len(prog[t])
Lively == Over \/ ENABLED Next
Emit == (Show /\ pc = [t \in DOMAIN prog |-> <<1, "take">>]) => PrintT("@@" \o ToJson([threads |-> [t \in DOMAIN prog |-> [j \in DOMAIN prog[t] |-> IF prog[t][j] = "get" THEN [o |-> "get"] ELSE [o |-> "set", v |-> ValueOf(t, j)]]]]))
=============================================================================
