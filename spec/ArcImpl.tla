------------------------------ MODULE ArcImpl ------------------------------
(* The reference-counting protocol of lib/ffi/src/arc/arc_block.rs, one action per atomic instruction, with the   *)
(* memory orderings it uses. The value is already shared between threads (negative counts); every thread starts   *)
(* with one reference and clones, reads, drops and mutates as it likes.                                           *)
(*   -1 - (references - 1) = count;  clone: load, fetch_sub(1);  drop: load, fetch_add(1), fence, destroy;        *)
(*   get_mut: load, fence, compare with -1.                                                                       *)
(* The constants allow seeding design faults to show that the invariants can fail.                                *)
EXTENDS Naturals, Integers, FiniteSets, TLC, HappensBefore

CONSTANTS Threads, MaxClones, MaxUses, DropOrder, DropFence, MutFence, CloneOrder

VARIABLES count, m, refs, pc, destroyed, clones, uses, bad
vars == <<count, m, refs, pc, destroyed, clones, uses, bad>>

Init == /\ count = -Cardinality(Threads)
        /\ m = HbInit(Threads)
        /\ refs = [t \in Threads |-> 1]
        /\ pc = [t \in Threads |-> "idle"]
        /\ destroyed = 0 /\ clones = 0 /\ uses = [t \in Threads |-> 0] /\ bad = FALSE

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Total == LET S[T \in SUBSET Threads] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN refs[x] + S[T \ {x}] IN S[Threads]

\* reading the payload through a reference
Use(t) == /\ pc[t] = "idle" /\ refs[t] > 0 /\ uses[t] < MaxUses
          /\ bad' = (bad \/ destroyed > 0 \/ ~RaceFreeRead(m, t))
          /\ m' = Read(m, t) /\ uses' = [uses EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<count, refs, pc, destroyed, clones>>
CloneLoad(t) == /\ pc[t] = "idle" /\ refs[t] > 0 /\ clones < MaxClones
                /\ m' = Load(m, t, "Relaxed") /\ clones' = clones + 1 /\ Go(t, "clone")
                /\ bad' = (bad \/ destroyed > 0)
                /\ UNCHANGED <<count, refs, destroyed, uses>>
CloneSub(t) == /\ pc[t] = "clone" /\ count' = count - 1 /\ m' = Rmw(m, t, CloneOrder)
               /\ refs' = [refs EXCEPT ![t] = @ + 1] /\ Go(t, "idle")
               /\ bad' = (bad \/ destroyed > 0)
               /\ UNCHANGED <<destroyed, clones, uses>>
DropLoad(t) == /\ pc[t] = "idle" /\ refs[t] > 0
               /\ m' = Load(m, t, "Relaxed") /\ Go(t, "drop")
               /\ bad' = (bad \/ destroyed > 0)
               /\ UNCHANGED <<count, refs, destroyed, clones, uses>>
DropAdd(t) == /\ pc[t] = "drop"
              /\ count' = count + 1 /\ m' = Rmw(m, t, DropOrder)
              /\ refs' = [refs EXCEPT ![t] = @ - 1]
              /\ Go(t, IF count = -1 THEN "last" ELSE "idle")
              /\ bad' = (bad \/ destroyed > 0)
              /\ UNCHANGED <<destroyed, clones, uses>>
DropDestroy(t) == /\ pc[t] = "last"
                  /\ LET f == IF DropFence = "none" THEN m ELSE Fence(m, t, DropFence) IN
                     /\ bad' = (bad \/ ~RaceFreeWrite(f, t))
                     /\ m' = Write(f, t)
                  /\ destroyed' = destroyed + 1 /\ Go(t, "idle")
                  /\ UNCHANGED <<count, refs, clones, uses>>
MutLoad(t) == /\ pc[t] = "idle" /\ refs[t] > 0 /\ uses[t] < MaxUses
              /\ m' = (LET l == Load(m, t, "Relaxed") IN IF MutFence = "none" THEN l ELSE Fence(l, t, MutFence))
              /\ Go(t, IF count = -1 THEN "mutate" ELSE "idle") /\ uses' = [uses EXCEPT ![t] = @ + 1]
              /\ bad' = (bad \/ destroyed > 0)
              /\ UNCHANGED <<count, refs, destroyed, clones>>
MutWrite(t) == /\ pc[t] = "mutate"
               /\ bad' = (bad \/ destroyed > 0 \/ ~RaceFreeWrite(m, t) \/ Total # 1)
               /\ m' = Write(m, t) /\ Go(t, "idle")
               /\ UNCHANGED <<count, refs, destroyed, clones, uses>>

Next == \E t \in Threads : Use(t) \/ CloneLoad(t) \/ CloneSub(t) \/ DropLoad(t) \/ DropAdd(t) \/ DropDestroy(t) \/ MutLoad(t) \/ MutWrite(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Safe == ~bad                                              \* no use after destruction, no data race
OnceOnly == destroyed <= 1
NotEarly == destroyed > 0 => Total = 0
CountsRefs == (destroyed = 0 /\ \A t \in Threads : pc[t] \notin {"last"}) => count = -Total
Released == <>(Total > 0 \/ destroyed = 1)
\* no leak: when nobody holds a reference and nobody is inside an operation the value has been destroyed
NoLeak == (Total = 0 /\ \A t \in Threads : pc[t] = "idle") => destroyed = 1
=============================================================================
