------------------------------ MODULE MapTrie ------------------------------
(* The algorithm of packages/prelude/Map.pen on small tries: a node has Fan entries, each empty, a
   binding or another node; the entry of a key at a level is the key's digit there. What the algorithm
   keeps is compared with a plain function from keys to values. MoveNodes = TRUE is the algorithm as it
   was before the repair (a lonely node moved up one level). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Fan, Depth, Values, MoveNodes, Digits

Keys == DOMAIN Digits

None == [t |-> "none"]
KV(k, v) == [t |-> "kv", k |-> k, v |-> v]
Nd(n) == [t |-> "node", n |-> n]
EmptyNode == [i \in 1..Fan |-> None]
Digit(k, l) == Digits[k][l]

RECURSIVE Get(_, _, _)
Get(n, k, l) ==
  LET e == n[Digit(k, l)] IN
  CASE e.t = "none" -> 0
    [] e.t = "kv" -> IF e.k = k THEN e.v ELSE 0
    [] OTHER -> Get(e.n, k, l + 1)

RECURSIVE Set(_, _, _, _)
Set(n, k, v, l) ==
  LET i == Digit(k, l)
      e == n[i]
  IN CASE e.t = "none" -> [n |-> [n EXCEPT ![i] = KV(k, v)], r |-> TRUE]
       [] e.t = "kv" ->
            IF e.k = k THEN [n |-> [n EXCEPT ![i] = KV(k, v)], r |-> FALSE]
            ELSE LET a == Set(EmptyNode, e.k, e.v, l + 1)
                     b == Set(a.n, k, v, l + 1)
                 IN [n |-> [n EXCEPT ![i] = Nd(b.n)], r |-> TRUE]
       [] OTHER -> LET u == Set(e.n, k, v, l + 1) IN [n |-> [n EXCEPT ![i] = Nd(u.n)], r |-> u.r]

Occupied(n) == {i \in 1..Fan : n[i].t # "none"}
Normal(n) ==
  IF Cardinality(Occupied(n)) = 1
  THEN LET e == n[CHOOSE i \in Occupied(n) : TRUE] IN IF e.t = "kv" \/ MoveNodes THEN e ELSE Nd(n)
  ELSE Nd(n)

RECURSIVE Delete(_, _, _)
Delete(n, k, l) ==
  LET i == Digit(k, l)
      e == n[i]
  IN CASE e.t = "none" -> [n |-> n, r |-> FALSE]
       [] e.t = "kv" -> IF e.k = k THEN [n |-> [n EXCEPT ![i] = None], r |-> TRUE] ELSE [n |-> n, r |-> FALSE]
       [] OTHER -> LET u == Delete(e.n, k, l + 1) IN [n |-> [n EXCEPT ![i] = Normal(u.n)], r |-> u.r]

(* Bindings in the order of iteration. *)
RECURSIVE Iterate(_, _)
Iterate(n, i) ==
  IF i > Fan THEN <<>>
  ELSE (CASE n[i].t = "none" -> <<>> [] n[i].t = "kv" -> <<<<n[i].k, n[i].v>>>> [] OTHER -> Iterate(n[i].n, 1)) \o Iterate(n, i + 1)

Plus(m, k, v) == LET u == Set(m.n, k, v, 1) IN [n |-> u.n, size |-> m.size + IF u.r THEN 1 ELSE 0]
Minus(m, k) == LET u == Delete(m.n, k, 1) IN [n |-> u.n, size |-> m.size - IF u.r THEN 1 ELSE 0]
RECURSIVE Fold(_, _)
Fold(m, kvs) == IF kvs = <<>> THEN m ELSE Fold(Plus(m, kvs[1][1], kvs[1][2]), Tail(kvs))
Merge(m, o) == Fold(m, Iterate(o.n, 1))
Empty == [n |-> EmptyNode, size |-> 0]

VARIABLES m1, m2, a1, a2
vars == <<m1, m2, a1, a2>>

Init == m1 = Empty /\ m2 = Empty /\ a1 = [k \in Keys |-> 0] /\ a2 = [k \in Keys |-> 0]

Next ==
  \/ \E k \in Keys, v \in Values : m1' = Plus(m1, k, v) /\ a1' = [a1 EXCEPT ![k] = v] /\ UNCHANGED <<m2, a2>>
  \/ \E k \in Keys : m1' = Minus(m1, k) /\ a1' = [a1 EXCEPT ![k] = 0] /\ UNCHANGED <<m2, a2>>
  \/ m1' = Merge(m1, m2) /\ a1' = [k \in Keys |-> IF a2[k] # 0 THEN a2[k] ELSE a1[k]] /\ UNCHANGED <<m2, a2>>
  \/ m1' = m2 /\ m2' = m1 /\ a1' = a2 /\ a2' = a1

Spec == Init /\ [][Next]_vars

Holds(m, a) ==
  /\ \A k \in Keys : Get(m.n, k, 1) = a[k]
  /\ m.size = Cardinality({k \in Keys : a[k] # 0})
  /\ LET kvs == Iterate(m.n, 1) IN
     /\ Len(kvs) = m.size
     /\ {kvs[i] : i \in 1..Len(kvs)} = {<<k, a[k]>> : k \in {x \in Keys : a[x] # 0}}

Faithful == Holds(m1, a1) /\ Holds(m2, a2)
(* Structural comparison and structural hashes of maps are sound and complete. *)
Canonical == (m1.n = m2.n) <=> (a1 = a2)

DigitsA == <<<<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<2, 1, 1>>>>
DigitsB == <<<<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 2>>, <<1, 2, 1>>, <<2, 2, 1>>>>
=============================================================================
