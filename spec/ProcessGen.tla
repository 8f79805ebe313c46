----------------------------- MODULE ProcessGen -----------------------------
(* Processes of every kind: how they begin, what they do, and everything that may come of it. *)
EXTENDS Process, Json
CONSTANTS MaxOps, Show
VARIABLES start, s, h
vars == <<start, s, h>>

Bytes(x) == CASE x = "a" -> <<97>> [] x = "empty" -> <<>> [] x = "dashes" -> <<45, 45>> [] x = "option" -> <<45, 120, 61, 49>> [] x = "spaces" -> <<32, 98, 32, 99>>
              [] x = "accent" -> <<195, 169>> [] x = "quotes" -> <<39, 34, 36, 96, 92>> [] x = "line" -> <<98, 10>> [] x = "equals" -> <<61>> [] x = "pair" -> <<97, 61, 98>>
              [] x = "none" -> <<255>> [] x = "zero" -> <<97, 0, 98>>
              [] x = "A" -> <<80, 69, 78, 95, 65>> [] x = "B" -> <<80, 69, 78, 95, 66>> [] x = "C" -> <<80, 69, 78, 95, 67>> [] x = "AA" -> <<80, 69, 78, 95, 65, 65>> [] x = "low" -> <<112, 101, 110, 95, 97>>
Texts == {Bytes(x) : x \in {"a", "empty", "dashes", "option", "spaces", "accent", "quotes", "line"}}
Command(x) == CASE x = "tell" -> <<46, 47, 116>> [] x = "fail" -> <<46, 47, 102>> [] x = "gone" -> <<46, 47, 103>> [] x = "plain" -> <<46, 47, 112>> [] x = "folder" -> <<46, 47, 100>> [] OTHER -> Bytes(x)
Long(n) == [i \in 1..n |-> (i * 7) % 251]
Inputs == {<<>>, <<1, 2, 3, 0, 255>>, Long(3000)}
Pick(S, x) == RandomElement(S)
Start == \E m \in {Pick(0..4, h)} : \E as \in {[i \in 1..m |-> RandomElement(Texts)]} :
         \E b \in {[i \in 1..3 |-> RandomElement({"unset", "a", "empty", "equals", "pair", "accent", "line", "none"})]}, i \in {Pick(Inputs, h)} :
         \E named \in {SelectSeq(<<1, 2, 3>>, LAMBDA j : b[j] # "unset")} :
           start' = [args |-> as, names |-> [j \in DOMAIN named |-> Bytes(<<"A", "B", "AA">>[named[j]])], values |-> [j \in DOMAIN named |-> Bytes(b[named[j]])],
                    command |-> Command("tell"), failing |-> Command("fail"), input |-> i]
None == [args |-> <<>>, names |-> <<>>, values |-> <<>>, command |-> <<>>, failing |-> <<>>, input |-> <<>>]
Init == start = None /\ s = First /\ h = <<>>

(* Some results of every operation, which are all allowed: nothing an operation can do is ruled out. *)
Lengths(o) == {m \in {0, 1, o.n, Len(Rest(start, s))} : m <= o.n /\ m <= Len(Rest(start, s)) /\ (m > 0 \/ o.n = 0 \/ Rest(start, s) = <<>>)}
Results(o) ==
  CASE o.o = "arguments" -> {[v |-> start.args]}
    [] o.o = "variable" -> {[ok |-> FALSE], [ok |-> TRUE, v |-> IF Value(start, o.n) = <<>> THEN <<>> ELSE Value(start, o.n)[1]]}
    [] o.o = "now" -> {[whole |-> TRUE, a |-> s.time, x |-> s.time + 1, b |-> s.time + 1]}
    [] o.o = "sleep" -> {[a |-> 0, b |-> 1000 * o.n]}
    [] o.o = "run" -> {[ok |-> FALSE, ran |-> <<>>], [ok |-> TRUE, ran |-> <<o.as>>]}
    [] o.o = "read" -> {[ok |-> TRUE, v |-> Rest(start, s)]}
    [] o.o = "limit" -> {[ok |-> TRUE, v |-> SubSeq(Rest(start, s), 1, m)] : m \in Lengths(o)}
    [] o.o \in {"out", "err"} -> {[ok |-> TRUE, v |-> <<Len(o.d)>>]}
    [] OTHER -> {[code |-> s.code, out |-> s.out, err |-> s.err]}
Op(k) ==
  CASE k = 1 -> {[o |-> "arguments"]}
    [] k \in {2, 3, 4} -> {[o |-> "variable", n |-> Bytes(x)] : x \in {Pick({"A", "B", "AA", "C", "low", "empty", "none", "zero"}, h)}}
    [] k = 5 -> {[o |-> "now"]}
    [] k = 6 -> {[o |-> "sleep", n |-> n] : n \in {Pick({0, 1, 3}, h)}}
    [] k \in {7, 8} -> {[o |-> "run", c |-> Command(c), as |-> as] : c \in {Pick({"tell", "tell", "fail", "gone", "plain", "folder", "none", "zero", "empty"}, h)},
                                                               as \in {[i \in 1..Pick(0..3, h) |-> RandomElement(Texts \cup {Bytes(Pick({"none", "zero", "a"}, h))})]}}
    [] k = 9 -> {[o |-> "read"]}
    [] k \in {10, 11} -> {[o |-> "limit", n |-> n] : n \in {Pick({0, 1, 2, 700, 5000}, h)}}
    [] k \in {12, 13} -> {[o |-> "out", d |-> d] : d \in {Pick({<<>>, <<1>>, <<2, 10, 3>>, Long(2500), <<0, 255>>}, h)}}
    [] k = 14 -> {[o |-> "err", d |-> d] : d \in {Pick({<<>>, <<4>>, <<5, 10>>, Long(1200)}, h)}}
    [] k = 15 -> {[o |-> "exit", n |-> n] : n \in {Pick({0, 1, 7, 255, 256}, h)}}
Next == IF start = None THEN Start /\ UNCHANGED <<s, h>>
        ELSE /\ Len(h) < MaxOps /\ ~s.over
             /\ \E k \in {Pick(1..15, h)} : \E o \in {RandomElement(Op(k))} : \E rs \in {{r \in Results(o) : Allowed(start, s, o, r)}} :
                  /\ Assert(rs # {}, o)
                  /\ \E r \in {RandomElement(rs)} : s' = After(s, o, r) /\ h' = Append(h, o)
             /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
(* Input is never read twice or skipped, and nothing happens after the end. *)
Sound == s.pos <= Len(start.input) /\ s.code \in 0..255
Grows == [][s'.pos >= s.pos /\ Len(s'.out) >= Len(s.out) /\ SubSeq(s'.out, 1, Len(s.out)) = s.out /\ s'.time >= s.time]_vars
Emit == (Show /\ start # None /\ (Len(h) = MaxOps \/ s.over)) => PrintT("@@" \o ToJson([start |-> start, ops |-> h]))
=============================================================================
