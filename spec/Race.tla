-------------------------------- MODULE Race --------------------------------
(* Concurrency of programs (property C08): race merges lists whose elements are evaluated concurrently between      *)
(* lists but in order within each; spawned computations run by themselves, once, and hand over their results.       *)
(* prog.lists[l][i] is the gate element i of list l waits for (0: none), prog.outer[l] the gate list l itself waits  *)
(* for; gates are opened one by one, each only after everything that can come out has come out: what cannot wait for *)
(* a closed gate must not be held up by it.                                                                          *)
(* prog.tasks[t] is the task that task t waits for (0: none); main awaits the tasks of prog.awaits in order.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES prog, open, started, finished, out, ran, complete, awaited, ended
rvars == <<prog, open, started, finished, out, ran, complete, awaited, ended>>
Lists == DOMAIN prog.lists
Tasks == DOMAIN prog.tasks
RInit(p) == /\ prog = p /\ open = 0 /\ started = [l \in DOMAIN p.lists |-> 0] /\ finished = started /\ out = started
            /\ ran = {} /\ complete = {} /\ awaited = 0 /\ ended = FALSE
IsOpen(g) == g <= open
Reached(l) == \A k \in 1..l : IsOpen(prog.outer[k])
\* number of elements of list l that the gates let through
Through(l) == IF ~Reached(l) THEN 0
              ELSE LET blocked == {i \in DOMAIN prog.lists[l] : ~IsOpen(prog.lists[l][i])} IN
                   IF blocked = {} THEN Len(prog.lists[l]) ELSE (CHOOSE i \in blocked : \A j \in blocked : i <= j) - 1
Start(l, i) == /\ Reached(l) /\ i = started[l] + 1 /\ i <= Len(prog.lists[l]) /\ finished[l] = started[l]
               /\ started' = [started EXCEPT ![l] = @ + 1] /\ UNCHANGED <<prog, open, finished, out, ran, complete, awaited, ended>>
Finish(l, i) == /\ i = finished[l] + 1 /\ started[l] = i /\ IsOpen(prog.lists[l][i])
                /\ finished' = [finished EXCEPT ![l] = @ + 1] /\ UNCHANGED <<prog, open, started, out, ran, complete, awaited, ended>>
Out(l, i) == /\ i = out[l] + 1 /\ finished[l] >= i /\ out' = [out EXCEPT ![l] = @ + 1]
             /\ UNCHANGED <<prog, open, started, finished, ran, complete, awaited, ended>>
Drained == \A l \in Lists : out[l] = Through(l)
Open(g) == /\ g = open + 1 /\ Drained /\ open' = g /\ UNCHANGED <<prog, started, finished, out, ran, complete, awaited, ended>>
Run(t) == t \in Tasks \ ran /\ ran' = ran \cup {t} /\ UNCHANGED <<prog, open, started, finished, out, complete, awaited, ended>>
Complete(t) == /\ t \in ran \ complete /\ (prog.tasks[t] = 0 \/ prog.tasks[t] \in complete) /\ complete' = complete \cup {t}
               /\ UNCHANGED <<prog, open, started, finished, out, ran, awaited, ended>>
Await(t, v) == /\ awaited < Len(prog.awaits) /\ t = prog.awaits[awaited + 1] /\ t \in complete /\ v = t * 11 /\ awaited' = awaited + 1
               /\ UNCHANGED <<prog, open, started, finished, out, ran, complete, ended>>
End == /\ ~ended /\ open = prog.gates /\ Drained /\ complete = Tasks /\ awaited = Len(prog.awaits) /\ ended' = TRUE
       /\ UNCHANGED <<prog, open, started, finished, out, ran, complete, awaited>>
=============================================================================
