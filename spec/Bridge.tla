------------------------------- MODULE Bridge -------------------------------
(* Futures and continuation-passing closures bridged into each other (property C06).                                *)
(* A term is a computation made of leaves (scripted futures) and bridges. What a user may rely on: each leaf is     *)
(* polled only when it is its turn and never after it completed; a poll that ends with "pending" has either had its  *)
(* waker invoked or has polled, with that waker, every leaf that is to be awaited next, none of which can progress; *)
(* the result is the value of the term. How many additional polls a bridge takes is left open (a bridge may wake and *)
(* be pending).                                                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RECURSIVE Leaves(_, _), Val(_)
\* leaves of a term in evaluation order; rt: whether they are polled in the runtime's context
Leaves(t, rt) ==
    CASE t.k = "leaf" -> << [id |-> t.id, kind |-> t.kind, n |-> t.n, rt |-> rt] >>
      [] t.k \in {"fc", "call", "tc", "into", "box"} -> Leaves(t.a, rt)
      [] t.k = "run" -> Leaves(t.a, TRUE)
      [] t.k \in {"seq", "join", "stream"} -> Leaves(t.a, rt) \o Leaves(t.b, rt)
      [] t.k = "imp" -> << [id |-> t.id, kind |-> "y", n |-> t.n, rt |-> rt] >>
      [] OTHER -> <<>>
Val(t) ==
    CASE t.k = "leaf" -> <<t.id>>
      [] t.k \in {"fc", "call", "tc", "into", "box", "run"} -> Val(t.a)
      [] t.k \in {"seq", "join", "stream"} -> Val(t.a) \o Val(t.b)
      [] t.k = "nat" -> <<t.id>>
      [] t.k = "ff" -> <<9>>
      [] t.k = "calln" -> <<t.id, t.x, t.y>>
      [] t.k = "cf" -> <<t.x, t.y>>
      [] t.k = "imp" -> <<t.x, t.id, t.y>>
LeafSet(t) == {Leaves(t, FALSE)[i] : i \in DOMAIN Leaves(t, FALSE)}
Ids(t) == {l.id : l \in LeafSet(t)}
RECURSIVE Enabled(_, _)
Enabled(t, done) ==
    CASE t.k = "leaf" -> {t.id} \ done
      [] t.k = "imp" -> {t.id} \ done
      [] t.k \in {"fc", "call", "tc", "into", "box", "run"} -> Enabled(t.a, done)
      [] t.k = "join" -> Enabled(t.a, done) \cup Enabled(t.b, done)
      [] t.k \in {"seq", "stream"} -> IF Ids(t.a) \subseteq done THEN Enabled(t.b, done) ELSE Enabled(t.a, done)
      [] OTHER -> {}
Leaf(t, i) == CHOOSE l \in LeafSet(t) : l.id = i

VARIABLES term, phase, done, fired, polls, polled, woken
bvars == <<term, phase, done, fired, polls, polled, woken>>
BInit(t) == term = t /\ phase = "idle" /\ done = {} /\ fired = {} /\ polls = [i \in Ids(t) |-> 0] /\ polled = {} /\ woken = TRUE
Begin == phase = "idle" /\ phase' = "polling" /\ woken' = FALSE /\ polled' = {} /\ UNCHANGED <<term, done, fired, polls>>
CanFinish(i) == LET l == Leaf(term, i) IN
    CASE l.kind = "ev" -> i \in fired  [] l.kind = "y" -> polls[i] >= l.n  [] l.kind = "tick" -> polls[i] > 0
LeafPoll(i, ready) ==
    /\ phase = "polling" /\ i \in Enabled(term, done)
    /\ ready => CanFinish(i)
    /\ (~ready) => (Leaf(term, i).kind = "tick" \/ ~CanFinish(i))
    /\ polls' = [polls EXCEPT ![i] = @ + 1] /\ polled' = polled \cup {i}
    /\ done' = IF ready THEN done \cup {i} ELSE done
    /\ woken' = (woken \/ (~ready /\ Leaf(term, i).kind = "y"))
    /\ UNCHANGED <<term, phase, fired>>
Hop == phase = "polling" /\ woken' = TRUE /\ UNCHANGED <<term, phase, done, fired, polls, polled>>
Waiting(i) == i \in polled /\ (Leaf(term, i).kind = "tick" \/ ~CanFinish(i))
EndPending == /\ phase = "polling"
              /\ woken \/ (Enabled(term, done) # {} /\ \A i \in Enabled(term, done) : Waiting(i))
              /\ phase' = "idle" /\ UNCHANGED <<term, done, fired, polls, polled, woken>>
EndReady(v) == phase = "polling" /\ done = Ids(term) /\ v = Val(term) /\ phase' = "done" /\ UNCHANGED <<term, done, fired, polls, polled, woken>>
Fire(i) == /\ phase = "idle" /\ i \notin fired /\ fired' = fired \cup {i}
           /\ woken' = (woken \/ (i \in polled /\ i \in Enabled(term, done)))
           /\ UNCHANGED <<term, phase, done, polls, polled>>
\* nobody can make progress although the computation is not complete
Stuck == phase = "idle" /\ ~woken /\ ~(\E i \in Enabled(term, done) : Waiting(i))
=============================================================================
