------------------------------ MODULE BridgeGen ------------------------------
(* Terms and environments for Bridge.tla; also checks its design: no behaviour gets stuck, and every fair one       *)
(* completes.                                                                                                        *)
EXTENDS Bridge, Json
CONSTANTS MaxSched, MaxHops, Mode   \* "check": explore Bridge;  "gen": emit (term, schedule);  "random": deep terms
VARIABLES sched, hops
vars == <<bvars, sched, hops>>
LeafKinds == {<<"ev", 0>>, <<"y", 0>>, <<"y", 1>>, <<"y", 2>>}
L0 == {[k |-> "leaf", id |-> 0, kind |-> x[1], n |-> x[2]] : x \in LeafKinds}
Nats == {[k |-> "nat", id |-> 0, n |-> n] : n \in 0..3}
Funs == {[k |-> "ff", n |-> n] : n \in 0..3} \cup {[k |-> "calln", id |-> 0, x |-> 0, y |-> 0, n |-> n] : n \in 0..3}
        \cup {[k |-> "cf", x |-> 0, y |-> 0, n |-> n] : n \in 0..3} \cup {[k |-> "imp", id |-> 0, x |-> 0, y |-> 0, n |-> n] : n \in {0, 1, 2}}
Clo(F) == {[k |-> b, a |-> f] : b \in {"tc", "into"}, f \in F} \cup Nats
Un(F) == {[k |-> b, a |-> c] : b \in {"fc", "call"}, c \in Clo(F)} \cup {[k |-> "run", a |-> f] : f \in F}
Bin(F, G) == {[k |-> b, a |-> f, b |-> g] : b \in {"seq", "join", "stream"}, f \in F, g \in G}
E0 == {[k |-> "leaf", id |-> 0, kind |-> "ev", n |-> 0], [k |-> "leaf", id |-> 0, kind |-> "y", n |-> 1]}
F1 == L0 \cup Funs \cup Un(L0)
Small == F1 \cup Bin(E0, E0) \cup Un(Un(E0)) \cup Bin(E0, {[k |-> "fc", a |-> [k |-> "tc", a |-> f]] : f \in E0})
         \cup Un(Bin(E0, E0)) \cup Un([k : {"imp"}, id : {0}, x : {0}, y : {0}, n : {1}])
\* identities in evaluation order, from 1; at most 8 of them
RECURSIVE Num(_, _)
Num(t, n) ==
    CASE t.k = "leaf" \/ t.k = "nat" -> [t |-> [t EXCEPT !.id = n], n |-> n + 1]
      [] t.k \in {"fc", "call", "tc", "into", "run"} -> LET r == Num(t.a, n) IN [t |-> [t EXCEPT !.a = r.t], n |-> r.n]
      [] t.k \in {"seq", "join", "stream"} -> LET r == Num(t.a, n)  s == Num(t.b, r.n) IN [t |-> [t EXCEPT !.a = r.t, !.b = s.t], n |-> s.n]
      [] t.k = "calln" -> [t |-> [t EXCEPT !.id = n, !.x = n + 1, !.y = n + 2], n |-> n + 3]
      [] t.k = "cf" -> [t |-> [t EXCEPT !.x = n, !.y = n + 1], n |-> n + 2]
      [] t.k = "imp" -> [t |-> [t EXCEPT !.x = n, !.id = n + 1, !.y = n + 2], n |-> n + 3]
      [] OTHER -> [t |-> t, n |-> n]
RECURSIVE Rand(_)
Rand(d) ==
    IF d = 0 THEN RandomElement(L0 \cup Funs)
    ELSE LET k == RandomElement({"fc", "fc", "call", "run", "seq", "join", "stream", "leaf"}) IN
         CASE k = "leaf" -> RandomElement(L0 \cup Funs)
           [] k = "run" -> [k |-> "run", a |-> Rand(d - 1)]
           [] k \in {"fc", "call"} -> [k |-> k, a |-> [k |-> RandomElement({"tc", "into"}), a |-> Rand(d - 1)]]
           [] OTHER -> [k |-> k, a |-> Rand(d - 1), b |-> Rand(d - 1)]
Terms == {Num(t, 1).t : t \in Small}
Ops(t) == {"poll", "spur"} \cup {ToString(l.id) : l \in {x \in LeafSet(t) : x.kind = "ev"}}
Init == \/ Mode = "check" /\ (\E t \in {Num(x, 1).t : x \in Un(L0) \cup Bin(E0, E0) \cup Un(Bin(E0, E0))} : BInit(t)) /\ sched = <<>> /\ hops = 0
        \/ Mode = "gen" /\ (\E t \in Terms : BInit(t)) /\ sched = <<>> /\ hops = 0
        \/ Mode = "random" /\ BInit([k |-> "ff", n |-> 0]) /\ sched = <<>> /\ hops = 1
Still == UNCHANGED <<phase, done, fired, polls, polled, woken>>
Gen == /\ Mode = "gen" /\ Len(sched) < MaxSched /\ UNCHANGED <<term, hops>> /\ Still
       /\ \E o \in Ops(term) : sched' = Append(sched, o)
Small8(r) == r.n <= 9
Random == /\ Mode = "random" /\ UNCHANGED <<phase, done, fired, polled, woken>>
          /\ IF hops = 1 THEN \E r \in {Num(Rand(RandomElement(2..4)), 1)} :
                                IF Small8(r) THEN term' = r.t /\ hops' = 0 /\ sched' = <<>> /\ polls' = [i \in Ids(r.t) |-> 0]
                                ELSE UNCHANGED <<term, hops, sched, polls>>
             ELSE Len(sched) < MaxSched /\ sched' = Append(sched, RandomElement(Ops(term))) /\ UNCHANGED <<term, hops, polls>>
Poll == phase = "idle" /\ woken /\ Begin /\ UNCHANGED <<sched, hops>>
Spurious == phase = "idle" /\ ~woken /\ Len(sched) < MaxSched /\ sched' = Append(sched, "spur") /\ Begin /\ UNCHANGED hops
Step == (\E i \in Enabled(term, done) \ polled, r \in BOOLEAN : LeafPoll(i, r)) /\ UNCHANGED <<sched, hops>>
Hops == hops < MaxHops /\ Hop /\ hops' = hops + 1 /\ UNCHANGED sched
End == (EndPending \/ EndReady(Val(term))) /\ UNCHANGED <<sched, hops>>
Fires == (\E l \in LeafSet(term) : l.kind = "ev" /\ Fire(l.id)) /\ UNCHANGED <<sched, hops>>
Check == Mode = "check" /\ (Poll \/ Spurious \/ Step \/ Hops \/ End \/ Fires)
Next == Gen \/ Random \/ Check
Fair == /\ WF_vars(Check /\ Poll) /\ WF_vars(Check /\ Step) /\ WF_vars(Check /\ End) /\ WF_vars(Check /\ Fires)
Spec == Init /\ [][Next]_vars /\ Fair
NotStuck == Mode = "check" => ~Stuck
OneResult == (phase = "done") => (done = Ids(term) /\ \A i \in Ids(term) : polls[i] > 0)
Completes == (Mode = "check") => <>(phase = "done")
Emit == ((Mode = "gen" \/ (Mode = "random" /\ hops = 0)) /\ Len(sched) = MaxSched) => PrintT("@@" \o ToJson([term |-> term, sched |-> sched, digits |-> Val(term)]))
=============================================================================
