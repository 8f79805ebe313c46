---------------------------- MODULE SharedValue ----------------------------
(* Client-visible meaning of reference-counted runtime values (properties C01, C02).                              *)
(* A value is created with some contents; references to it live in slots; a value is destroyed exactly when its   *)
(* last reference is dropped, and contents can be changed in place exactly by a sole holder of a heap value.      *)
(* Behaviours (with the observation expected after each step) are emitted for replay into lib/ffi.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,     \* 1..n, places that hold references
          Kinds,     \* subset of {"heap", "static", "empty"}
          MaxObjs,   \* values created per behaviour
          MaxLen,    \* length of behaviours
          Values,    \* contents
          Cow        \* TRUE: byte buffers, where changing a shared buffer gives the holder a private copy

VARIABLES objs, slot, hist
vars == <<objs, slot, hist>>

None == 0
Refs(o) == {s \in DOMAIN slot : slot[s] = o}
Free == {s \in DOMAIN slot : slot[s] = None}
Lowest(S) == CHOOSE s \in S : \A u \in S : s <= u

TypeOK == /\ slot \in [Slots -> 0..Len(objs)]
          /\ \A i \in DOMAIN objs : objs[i].kind \in Kinds

\* Contents seen through each slot (-1: no reference), and which values have been destroyed.
Obs(o, sl) == [seen |-> [s \in Slots |-> IF sl[s] = None THEN -1 ELSE o[sl[s]].val],
               dead |-> [i \in DOMAIN o |-> IF o[i].dead THEN 1 ELSE 0]]
Log(op, args, ok, o, sl) == hist' = Append(hist, [op |-> op, args |-> args, ok |-> ok, obs |-> Obs(o, sl)])

Init == objs = <<>> /\ slot = [s \in Slots |-> None] /\ hist = <<>>

New(k) == /\ Free # {} /\ Len(objs) < MaxObjs
          /\ LET s == Lowest(Free) IN
             /\ objs' = Append(objs, [kind |-> k, val |-> IF k = "empty" THEN 0 ELSE Len(objs) + 1, shared |-> FALSE, dead |-> FALSE])
             /\ slot' = [slot EXCEPT ![s] = Len(objs) + 1]
             /\ Log("new", <<s, k>>, TRUE, objs', slot')

Clone(s) == /\ slot[s] # None /\ Free # {}
            /\ LET d == Lowest(Free) IN
               /\ slot' = [slot EXCEPT ![d] = slot[s]]
               /\ UNCHANGED objs
               /\ Log("clone", <<s, d>>, TRUE, objs', slot')

\* The last reference destroys a heap value; static values live on, empty ones have nothing to destroy.
DropObjs(s) == [i \in DOMAIN objs |-> IF i = slot[s] /\ objs[i].kind = "heap" /\ Refs(i) = {s}
                                      THEN [objs[i] EXCEPT !.dead = TRUE] ELSE objs[i]]
Drop(s) == /\ slot[s] # None
           /\ objs' = DropObjs(s)
           /\ slot' = [slot EXCEPT ![s] = None]
           /\ Log("drop", <<s>>, TRUE, objs', slot')

\* Making a value shareable between threads changes nothing a client sees.
Share(s) == /\ slot[s] # None /\ ~objs[slot[s]].shared
            /\ objs' = [objs EXCEPT ![slot[s]].shared = TRUE]
            /\ UNCHANGED slot
            /\ Log("share", <<s>>, TRUE, objs', slot')

CanMutate(s) == objs[slot[s]].kind = "heap" /\ Refs(slot[s]) = {s}
Mutate(s, v) == /\ slot[s] # None
                /\ IF CanMutate(s)
                   THEN objs' = [objs EXCEPT ![slot[s]].val = v] /\ UNCHANGED slot
                   ELSE IF Cow /\ objs[slot[s]].kind # "empty"
                   THEN /\ objs' = Append(objs, [kind |-> "heap", val |-> v, shared |-> FALSE, dead |-> FALSE])
                        /\ slot' = [slot EXCEPT ![s] = Len(objs) + 1]
                   ELSE UNCHANGED <<objs, slot>>
                /\ Log("mutate", <<s, v>>, CanMutate(s), objs', slot')

Next == /\ Len(hist) < MaxLen
        /\ \/ \E k \in Kinds : New(k)
           \/ \E s \in Slots : Clone(s) \/ Drop(s) \/ Share(s) \/ \E v \in Values : Mutate(s, v)
Spec == Init /\ [][Next]_vars

\* A value that anyone refers to is intact; an unreferenced heap value has been destroyed.
Intact == \A i \in DOMAIN objs : objs[i].dead <=> (objs[i].kind = "heap" /\ Refs(i) = {})
\* In-place changes are seen by nobody but the one who makes them.
Isolated == [][\A s \in Slots : (slot[s] # None /\ slot'[s] = slot[s] /\ objs[slot[s]].val # objs'[slot[s]].val)
                                    => Refs(slot[s]) = {s}]_vars

Emit == Len(hist) = MaxLen => PrintT("@@" \o ToJson(hist))
\* For checking the properties without histories.
View == <<objs, slot>>
=============================================================================
