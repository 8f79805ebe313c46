-------------------------------- MODULE Http --------------------------------
(* Exchanges of requests and responses between clients and a server with a handler. Texts are sequences of octets. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Digit == 48..57
Upper == 65..90
Letter == Upper \cup (97..122)
Marks == {33, 35, 36, 37, 38, 39, 42, 43, 45, 46, 94, 95, 96, 124, 126}
Token(x) == x # <<>> /\ \A i \in DOMAIN x : x[i] \in Letter \cup Digit \cup Marks
Value(x) == \A i \in DOMAIN x : x[i] = 9 \/ (x[i] >= 32 /\ x[i] # 127)
Low(x) == [i \in DOMAIN x |-> IF x[i] \in Upper THEN x[i] + 32 ELSE x[i]]
Blank == {32, 9}
RECURSIVE Trim(_)
Trim(x) == IF x = <<>> THEN x
           ELSE IF x[1] \in Blank THEN Trim(Tail(x))
           ELSE IF x[Len(x)] \in Blank THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x

(* A header is a name and a value. Names are blind to case, and blanks around values are no part of them. *)
Good(hs) == \A i \in DOMAIN hs : Token(hs[i][1]) /\ Value(hs[i][2])
Plain(hs) == {<<Low(hs[i][1]), Trim(hs[i][2])>> : i \in DOMAIN hs}
(* Headers which the two sides put in by themselves: host, content-length, transfer-encoding, connection, date. *)
Own == {<<104, 111, 115, 116>>, <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>,
        <<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<99, 111, 110, 110, 101, 99, 116, 105, 111, 110>>, <<100, 97, 116, 101>>}
Carried(hs, got) == LET g == {<<Low(got[i][1]), got[i][2]>> : i \in DOMAIN got}
                    IN /\ Plain(hs) \subseteq g
                       /\ \A x \in g \ Plain(hs) : x[1] \in Own
                       /\ Cardinality(g) = Len(got)

HeadMethod == <<72, 69, 65, 68>>
(* A request: place tells whether its address is one where the server is, and target what follows the address. *)
Sound(q) == q.place # "bad" /\ Token(q.method) /\ Good(q.headers)
Reaches(q) == Sound(q) /\ q.place = "server"
(* Targets which are URLs, as requests to proxies have, stay as they are. *)
Url(t) == Len(t) > 7 /\ SubSeq(t, 1, 7) = <<104, 116, 116, 112, 58, 47, 47>>
Target(t) == IF Url(t) THEN t ELSE IF t = <<>> \/ t[1] # 47 THEN <<47>> \o t ELSE t
Sees(q, x) == x.method = q.method /\ x.target = Target(q.target) /\ x.body = q.body /\ Carried(q.headers, x.headers)
Answers(a) == a.status \in 100..999 /\ Good(a.headers)
Bodiless(q, a) == q.method = HeadMethod \/ a.status \in {204, 304}
Gets(q, a, x) == x.ok = TRUE /\ x.status = a.status /\ x.body = (IF Bodiless(q, a) THEN <<>> ELSE a.body) /\ Carried(a.headers, x.headers)

(* Where an exchange is: it has begun, the handler has seen it, the client has got something. *)
Begin(st) == st = "none"
See(st, q, x) == st = "begun" /\ Reaches(q) /\ Sees(q, x)
Get(st, q, a, x) == IF st = "seen" /\ Answers(a) THEN Gets(q, a, x) ELSE st \in {"begun", "seen"} /\ (st = "begun" => ~Reaches(q)) /\ x.ok = FALSE
=============================================================================
