----------------------------- MODULE SocketsGen -----------------------------
(* Histories of streams and of datagram sockets. *)
EXTENDS Sockets, Json
CONSTANTS MaxOps, Focus, Show
VARIABLES s, h
vars == <<s, h>>
Init == s = First /\ h = <<>>
Pick(S, x) == RandomElement(S)
Addresses == 1..3
(* Bytes which tell where they stand: later ones differ. *)
Sent == Len(SelectSeq(h, LAMBDA x : x.o = "send"))
Data(n) == [i \in 1..n |-> (Sent * 16 + i) % 256]
Id == Len(h) + 1
Conns == {c \in DOMAIN s.cs : s.cs[c].ok}
Uses == {u \in DOMAIN s.us : s.us[u].open}
Listens == {l \in DOMAIN s.ls : s.ls[l].open}
Used == {s.ls[l].at : l \in Listens}
Bounds == {s.us[u].at : u \in Uses}
Or(S, T) == IF S = {} THEN T ELSE S
Lengths == {0, 1, 2, 100, 511, 512, 513, 1472, 9000, 65507, 65508}
StreamOp(k) ==
  CASE k = 1 -> {[o |-> "listen", at |-> i] : i \in {Pick(Addresses, h)}}
    [] k = 2 -> {[o |-> "connect", at |-> i] : i \in {Pick(Addresses, h)}}
    [] k = 3 -> {[o |-> "plainConnect", at |-> i] : i \in {Pick(Or(Used, Addresses), h)}}
    [] k = 4 -> {[o |-> "connect", at |-> i] : i \in {Pick(Or(Used, Addresses), h)}}
    [] k \in {5, 6} -> {[o |-> "accept", l |-> l] : l \in Listens}
    [] k \in 7..10 -> {[o |-> "send", c |-> c, e |-> Pick({1, 2}, h), d |-> Data(Pick({0, 1, 2, 5}, h))] : c \in Conns}
    [] k \in 11..14 -> {[o |-> "receive", c |-> c, e |-> Pick({1, 2}, h), n |-> Pick({0, 1, 2, 4, 100}, h)] : c \in Conns}
    [] k \in {15, 16} -> {[o |-> "close", c |-> c, e |-> Pick({1, 2}, h)] : c \in Conns}
    [] k = 17 -> {[o |-> b, b |-> Pick(1..5, h)] : b \in {Pick({"badListen", "badConnect"}, h)}}
    [] k = 18 -> {[o |-> "deaf", l |-> l] : l \in Listens}
DatagramOp(k) ==
  CASE k \in {1, 2} -> {[o |-> "bind", at |-> i] : i \in {Pick(Addresses, h)}}
    [] k \in {3, 4} -> {[o |-> "attach", u |-> u, at |-> Pick(Or(Bounds, Addresses), h)] : u \in Uses}
    [] k \in 5..7 -> {[o |-> "post", u |-> u, id |-> Id, n |-> Pick(Lengths, h)] : u \in Uses}
    [] k \in 8..10 -> {[o |-> "postTo", u |-> u, at |-> Pick(Or(Bounds, Addresses), h), id |-> Id, n |-> Pick(Lengths, h)] : u \in Uses}
    [] k \in 11..14 -> {[o |-> "take", u |-> u] : u \in Uses}
    [] k \in 15..17 -> {[o |-> "takeFrom", u |-> u] : u \in Uses}
    [] k = 18 -> {[o |-> b, u |-> IF Uses = {} THEN 1 ELSE Pick(Uses, h), b |-> Pick(1..5, h)] : b \in {Pick({"badBind", "badAttach", "badPost"}, h)}}
                 \cup {[o |-> "shut", u |-> u] : u \in Uses}
(* Results an operation has when it takes and gives as much as it can. *)
Results(o) ==
  CASE o.o = "accept" -> {[ok |-> TRUE, peer |-> c] : c \in {0} \cup DOMAIN s.cs}
    [] o.o = "send" -> {[ok |-> TRUE, n |-> n] : n \in {Len(o.d)}}
    [] o.o = "receive" -> {[ok |-> TRUE, v |-> SubSeq(s.cs[o.c].ends[o.e].in, 1, n)] : n \in {Min(o.n, Len(s.cs[o.c].ends[o.e].in))}}
    [] o.o \in {"post", "postTo"} -> {[ok |-> FALSE], [ok |-> TRUE, n |-> o.n]}
    [] o.o \in {"take", "takeFrom"} -> {[ok |-> TRUE, ids |-> <<m.id>>, from |-> m.from] : m \in {Least(s.us[o.u].in)}}
    [] OTHER -> {[ok |-> FALSE], [ok |-> TRUE]}
(* Few and small enough datagrams wait for no one to be dropped. *)
Waiting(u) == s.us[u].in
Roomy(o) == o.o \in {"post", "postTo"} => \A u \in Uses : Cardinality(Waiting(u)) < 4 /\ (o.n > 9000 => \A m \in Waiting(u) : h[m.id].n <= 9000)
Next == /\ Len(h) < MaxOps
        /\ \E k \in {Pick(1..18, h)} : \E os \in {{o \in IF Focus = "streams" THEN StreamOp(k) ELSE DatagramOp(k) : Can(s, o) /\ Roomy(o)}} :
             IF os = {} THEN UNCHANGED vars
             ELSE \E o \in {Pick(os, h)} : \E rs \in {{r \in Results(o) : Allowed(s, o, r)}} :
                    /\ Assert(rs # {}, o)
                    /\ \E r \in {Pick(rs, h)} : s' = After(s, o, r)
                    /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
(* One user of an address at a time; ends hold nothing that was not sent to them; a datagram is in one place. *)
Sound == /\ \A i \in Addresses : Cardinality(Listening(s, i)) <= 1 /\ Cardinality(Bound(s, i)) <= 1
         /\ \A c \in DOMAIN s.cs : \A e \in 1..2 : LET all == {x \in DOMAIN h : h[x].o = "send" /\ h[x].c = c /\ h[x].e = Other(e)}
                                                 IN \A i \in DOMAIN s.cs[c].ends[e].in : \E x \in all : \E j \in DOMAIN h[x].d : h[x].d[j] = s.cs[c].ends[e].in[i]
         /\ \A u, v \in DOMAIN s.us : \A m \in s.us[u].in : m.id <= Len(h) /\ h[m.id].o \in {"post", "postTo"} /\ (u # v => m \notin s.us[v].in)
Emit == (Show /\ Len(h) = MaxOps) => PrintT("@@" \o ToJson(h))
=============================================================================
