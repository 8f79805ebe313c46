------------------------------ MODULE HttpGen -------------------------------
(* Batches of exchanges, and all that may happen in them. *)
EXTENDS Http, Json
CONSTANTS MaxExchanges, Show
VARIABLES xs, st, done
vars == <<xs, st, done>>

Pick(S, x) == RandomElement(S)
Methods == {<<71, 69, 84>>, <<80, 79, 83, 84>>, <<80, 85, 84>>, <<68, 69, 76, 69, 84, 69>>, <<80, 65, 84, 67, 72>>, HeadMethod, <<79, 80, 84, 73, 79, 78, 83>>, <<70, 79, 79>>, <<103, 101, 116>>, <<88, 45, 33>>}
BadMethods == {<<>>, <<71, 32, 84>>, <<71, 10>>, <<195, 169>>}
(* /, a path, a query, escapes, doubled and odd characters, no path at all *)
Targets == {<<47>>, <<47, 97, 47, 98>>, <<47, 97, 63, 120, 61, 49, 38, 121, 61, 37, 50, 48>>, <<47, 37, 67, 51, 37, 65, 57>>, <<47, 47, 97>>, <<47, 97, 47, 46, 46, 47, 98>>,
            <<47, 97, 59, 98, 61, 99>>, <<47, 63>>, <<47, 58, 64, 43, 44, 33>>, <<>>, <<63, 120, 61, 49>>}
(* http://h/p and http://h:1/p?x, which only clients of one's own write *)
Urls == {<<104, 116, 116, 112, 58, 47, 47, 104, 47, 112>>, <<104, 116, 116, 112, 58, 47, 47, 104, 58, 49, 47, 112, 63, 120>>}
Names == <<<<120, 45, 97>>, <<88, 45, 66>>, <<65, 99, 99, 101, 112, 116>>, <<120, 33, 35, 95, 49>>, <<67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101>>, <<117>>>>
Texts == {<<>>, <<97>>, <<97, 32, 98>>, <<32, 97, 9>>, <<44, 59, 61, 34, 92>>, <<200, 255>>, <<195, 169>>, [i \in 1..90 |-> 32 + i], <<97, 9, 98>>}
BadNames == {<<>>, <<97, 32, 98>>, <<97, 58>>, <<97, 10>>, <<200>>}
BadTexts == {<<97, 10, 98>>, <<0>>, <<97, 13, 10, 120, 58, 49>>, <<127>>}
Bodies == {<<>>, <<104, 105>>, <<0, 255, 13, 10, 13, 10, 128>>, [i \in 1..300 |-> (i * 7) % 256]}
Long == [i \in 1..17000 |-> (i * 11 + i \div 256) % 256]
Body(x) == IF RandomElement(1..16) = 1 THEN Long ELSE RandomElement(Bodies)
Statuses == {200, 201, 202, 204, 206, 301, 304, 400, 404, 418, 500, 503, 599, 600, 999}
BadStatuses == {0, 99, 1000, 65736}
Headers(h) == LET some == {i \in DOMAIN Names : RandomElement(1..3) = 1}
                  RECURSIVE f(_)
                  f(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE m \in s : TRUE IN <<<<Names[m], RandomElement(Texts)>>>> \o f(s \ {m})
              IN f(some)
Bad(hs, h) == Append(hs, IF RandomElement(BOOLEAN) THEN <<RandomElement(BadNames), <<97>>>> ELSE <<<<120>>, RandomElement(BadTexts)>>)
(* What is odd about an exchange: nothing mostly. Wires are the two sides which are not written in Pen. *)
Exchange(h) ==
  \E w \in {Pick({"both", "both", "client", "server"}, h)}, odd \in {Pick(1..14, h)}, m \in {Pick(Methods, h)}, t \in {Pick(Targets, h)}, u \in {Pick(Urls, h)}, full \in {Pick(1..4, h)}, b \in {Body(h)}, c \in {Body(h)},
     s \in {Pick(Statuses, h)}, hs \in {Headers(h)}, gs \in {Headers(h)}, bh \in {Bad(<<>>, h)}, bg \in {Bad(<<>>, h)}, bm \in {Pick(BadMethods, h)}, bs \in {Pick(BadStatuses, h)},
     frame \in {Pick(1..4, h)}, place \in {Pick(1..8, h)} :
    LET asked == w # "server"
        given == w # "client"
        q == [method |-> IF asked /\ odd = 1 THEN bm ELSE m, target |-> IF asked THEN t ELSE IF full = 1 THEN u ELSE Target(t), headers |-> IF asked /\ odd = 2 THEN hs \o bh ELSE hs, body |-> b,
              place |-> IF asked /\ odd = 3 THEN "bad" ELSE IF asked /\ odd = 4 THEN "nowhere" ELSE "server"]
        a == [status |-> IF given /\ odd = 5 THEN bs ELSE s, headers |-> IF given /\ odd = 6 THEN gs \o bg ELSE gs, body |-> c]
    IN xs' = Append(xs, [w |-> w, q |-> q, a |-> a, frame |-> frame, bad |-> place])
Init == xs = <<>> /\ st = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(xs) < MaxExchanges /\ Exchange(xs) /\ st' = Append(st, "none") /\ UNCHANGED done
Start == ~done /\ Len(xs) = MaxExchanges /\ done' = TRUE /\ UNCHANGED <<xs, st>>
(* The exchanges as such. *)
Move(i, from, to) == st[i] = from /\ st' = [st EXCEPT ![i] = to] /\ UNCHANGED <<xs, done>>
Run == done /\ \E i \in DOMAIN st :
  \/ Move(i, "none", "begun")
  \/ Reaches(xs[i].q) /\ Move(i, "begun", "seen")
  \/ ~Reaches(xs[i].q) /\ Move(i, "begun", "failed")
  \/ Move(i, "seen", IF Answers(xs[i].a) THEN "answered" ELSE "failed")
Next == Add \/ Start \/ Run
Spec == Init /\ [][Next]_vars
(* What begins comes to an end, and only what reached the handler is answered. *)
Ends == (done /\ ~ENABLED Run) => \A i \in DOMAIN st : st[i] \in {"answered", "failed"}
Only == \A i \in DOMAIN st : st[i] = "answered" => Reaches(xs[i].q) /\ Answers(xs[i].a)
Names2 == \A i \in DOMAIN xs : \A hs \in {xs[i].q.headers, xs[i].a.headers} : \A j, k \in DOMAIN hs : j # k => Low(hs[j][1]) # Low(hs[k][1])
Emit == (Show /\ done /\ \A i \in DOMAIN st : st[i] = "none") => PrintT("@@" \o ToJson(xs))
=============================================================================
