------------------------------- MODULE MapGen -------------------------------
(* Histories of operations on persistent maps. A version is a function from keys to values (0: absent);
   every operation makes a new version of existing ones and leaves those as they are. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NK, NV, Length, Linear

Keys == 1..NK
Values == 1..NV
VARIABLES vers, hist
vars == <<vers, hist>>

Init == vers = <<[k \in Keys |-> 0]>> /\ hist = <<>>

Step(op, m) == vers' = Append(vers, m) /\ hist' = Append(hist, op)
Bases == IF Linear THEN {Len(vers)} ELSE 1..Len(vers)
Others == IF Linear THEN {} ELSE 1..Len(vers)

Put(i, k, v) == Step(<<"set", i, k, v>>, [vers[i] EXCEPT ![k] = v])
Delete(i, k) == Step(<<"del", i, k>>, [vers[i] EXCEPT ![k] = 0])
Put2(i, k, v, k2, v2) == Step(<<"set2", i, k, v, k2, v2>>, [[vers[i] EXCEPT ![k] = v] EXCEPT ![k2] = v2])
(* A map spread into a literal adds its bindings to the ones written before it, which win; a single
   binding replaces the one written before it. *)
Over(x, y) == [k \in Keys |-> IF y[k] # 0 THEN y[k] ELSE x[k]]
Merge(i, j) == Step(<<"merge", i, j>>, Over(vers[j], vers[i]))
(* {K: V ...i, k: v, ...j} *)
Mixed(i, k, v, j) == Step(<<"mixed", i, k, v, j>>, Over(vers[j], [vers[i] EXCEPT ![k] = v]))

Next ==
  /\ Len(hist) < Length
  /\ \/ \E i \in Bases, k \in Keys, v \in Values : Put(i, k, v)
     \/ \E i \in Bases, k \in Keys : Delete(i, k)
     \/ ~Linear /\ \E i \in Bases, k \in Keys, v \in Values, k2 \in Keys, v2 \in Values : Put2(i, k, v, k2, v2)
     \/ \E i \in Bases, j \in Others : Merge(i, j)
     \/ \E i \in Bases, j \in Others, k \in Keys, v \in Values : Mixed(i, k, v, j)

(* For simulation: the kind of operation first, so that deletions are not rare; recent versions preferred. *)
Rnd(S) == RandomElement(S)
SimNext ==
  /\ Len(hist) < Length
  /\ \E kind \in {Rnd(IF Len(hist) < 5 THEN {1, 2} ELSE 1..9)}, k \in {Rnd(Keys)}, v \in {Rnd(Values)}, k2 \in {Rnd(Keys)}, v2 \in {Rnd(Values)},
        j \in {Rnd(1..Len(vers))}, p \in {Rnd(1..4)}, q \in {Rnd(1..Len(vers))} :
       LET i == IF p = 1 THEN q ELSE Len(vers) IN
       CASE kind \in {1, 3} -> Put(i, k, v)
         [] kind \in {4, 5, 6} -> Delete(i, k)
         [] kind \in {2, 7} -> Put2(i, k, v, k2, v2)
         [] kind = 8 -> Merge(i, j)
         [] OTHER -> Mixed(i, k, v, j)

Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][SimNext]_vars

Out == Len(hist) = Length => PrintT("@@" \o ToJson([ops |-> hist, vers |-> vers]))
(* A version once made never changes, and what was deleted is gone from the result. *)
Persistent == [][SubSeq(vers', 1, Len(vers)) = vers]_vars
=============================================================================
