------------------------------- MODULE RaceGen -------------------------------
(* Programs for Race.tla and the check that every fair execution of them ends, also when elements pass through a    *)
(* channel of bounded capacity whose consumer only takes what it needs.                                              *)
EXTENDS Race, Json
CONSTANTS MaxLists, MaxLen, Mode, Capacity
VARIABLES chan, made
vars == <<rvars, chan, made>>
Rows(gs) == UNION {[1..n -> gs] : n \in 0..MaxLen}
Outer(n) == {o \in [1..n -> 0..2] : \A i \in 1..n : o[i] = 0 \/ o[i] = 1}
Empty == [lists |-> <<>>, outer |-> <<>>, gates |-> 0, tasks |-> <<>>, awaits |-> <<>>]
RaceProgs == UNION {{[Empty EXCEPT !.lists = ls, !.outer = o, !.gates = 2] : ls \in [1..n -> Rows(0..2)], o \in Outer(n)} : n \in 0..MaxLists}
\* no gate waits for a later one within a list: gates open in order whatever is behind them
TaskGraphs(n) == {d \in [1..n -> 0..n] : \A t \in 1..n : d[t] # t /\ (d[t] = 0 \/ d[d[t]] = 0 \/ (d[d[t]] # t /\ d[d[d[t]]] = 0))}
Perms(n) == UNION {{s \in [1..k -> 1..n] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 0..n}
TaskProgs == UNION {{[Empty EXCEPT !.tasks = d, !.awaits = a] : d \in TaskGraphs(n), a \in Perms(n)} : n \in 1..3}
RandomRow(l) == LET n == RandomElement(0..12) IN [i \in 1..n |-> RandomElement({0, 0, 0, 0, 0, RandomElement(1..3)})]
LongRow(l) == LET n == RandomElement({40, 70}) IN [i \in 1..n |-> IF RandomElement(1..20) = 1 THEN RandomElement(1..3) ELSE 0]
RandomProg(x) == LET n == RandomElement(1..6) IN
              [Empty EXCEPT !.lists = [l \in 1..n |-> IF RandomElement(1..6) = 1 THEN LongRow(l) ELSE RandomRow(l)],
                            !.outer = [l \in 1..n |-> RandomElement({0, 0, 0, 1, 2})], !.gates = 3]
Init == /\ chan = <<>> /\ made = FALSE
        /\ \/ Mode \in {"gen", "check"} /\ \E p \in RaceProgs \cup TaskProgs : RInit(p)
           \/ Mode = "random" /\ RInit(Empty)
Gen == /\ Mode = "gen" /\ ~made /\ made' = TRUE /\ UNCHANGED <<rvars, chan>>
Random == /\ Mode = "random" /\ ~made /\ made' = TRUE /\ (\E p \in {RandomProg(0)} : prog' = p) /\ UNCHANGED <<open, started, finished, out, ran, complete, awaited, ended, chan>>
Idle == UNCHANGED <<chan, made>>
Send(l) == /\ Len(chan) < Capacity /\ ~(\E k \in DOMAIN chan : chan[k] = <<l, finished[l]>>) /\ out[l] < finished[l]
           /\ chan' = Append(chan, <<l, finished[l]>>) /\ UNCHANGED <<rvars, made>>
InChan(l) == \E k \in DOMAIN chan : chan[k][1] = l
\* a list goes on to its next element once the last one has been sent
CheckStart == \E l \in Lists : (finished[l] = out[l] \/ InChan(l)) /\ Start(l, started[l] + 1) /\ Idle
CheckOpen == Open(open + 1) /\ open < prog.gates /\ Idle
Recv == /\ chan # <<>> /\ Out(chan[1][1], out[chan[1][1]] + 1) /\ chan' = Tail(chan) /\ UNCHANGED made
Check == /\ Mode = "check"
         /\ \/ CheckStart
            \/ (\E l \in Lists : Finish(l, started[l]) /\ Idle)
            \/ (\E l \in Lists : Send(l))
            \/ Recv
            \/ CheckOpen
            \/ (\E t \in Tasks : (Run(t) \/ Complete(t) \/ Await(t, t * 11)) /\ Idle)
            \/ (End /\ Idle)
Next == Gen \/ Random \/ Check
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == (Mode = "check") => <>ended
\* how many elements have come out when g gates are open
At(g) == LET r(l) == \A k \in 1..l : prog.outer[k] <= g
             n(l) == IF ~r(l) THEN 0 ELSE LET b == {i \in DOMAIN prog.lists[l] : prog.lists[l][i] > g} IN
                     IF b = {} THEN Len(prog.lists[l]) ELSE (CHOOSE i \in b : \A j \in b : i <= j) - 1
             RECURSIVE sum(_) sum(l) == IF l = 0 THEN 0 ELSE n(l) + sum(l - 1)
         IN sum(Len(prog.lists))
Emit == made => PrintT("@@" \o ToJson(prog @@ [at |-> [g \in 1..(prog.gates + 1) |-> At(g - 1)]]))
=============================================================================
