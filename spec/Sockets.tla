------------------------------ MODULE Sockets -------------------------------
(* Listeners, streams and datagram sockets on a few addresses. A stream is two ends with an array of bytes under way to each;
   a datagram socket holds the datagrams which have come to it. An operation is done when it can be: none waits here. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxDatagram == 65507
Min(a, b) == IF a < b THEN a ELSE b
First == [ls |-> <<>>, cs |-> <<>>, us |-> <<>>]
(* Listeners and sockets in use of an address. *)
Listening(s, i) == {l \in DOMAIN s.ls : s.ls[l].open /\ s.ls[l].at = i}
Bound(s, i) == {k \in DOMAIN s.us : s.us[k].open /\ s.us[k].at = i}
End == [open |-> TRUE, in |-> <<>>]
Other(e) == 3 - e
(* Whether a socket takes datagrams from an address: one that is connected to another one does not. *)
Takes(s, k, i) == s.us[k].peer \in {0, i}
(* Connected sockets may be told later that no one took their datagrams, which is left out here. *)
Heard(s, u, to) == \E k \in Bound(s, to) : Takes(s, k, s.us[u].at)
Arrive(s, to, from, id) == [s EXCEPT !.us = [k \in DOMAIN @ |-> IF k \in Bound(s, to) /\ Takes(s, k, from) THEN [@[k] EXCEPT !.in = @ \cup {[id |-> id, from |-> from]}] ELSE @[k]]]

(* Whether an operation can be done without waiting, and what comes of it is settled. *)
Can(s, o) ==
  CASE o.o \in {"listen", "connect", "bind", "badListen", "badConnect", "badBind"} -> TRUE
    [] o.o = "plainConnect" -> Listening(s, o.at) # {}
    [] o.o = "accept" -> o.l \in DOMAIN s.ls /\ s.ls[o.l].open /\ s.ls[o.l].queue # <<>>
    [] o.o = "deaf" -> o.l \in DOMAIN s.ls /\ s.ls[o.l].open /\ s.ls[o.l].queue = <<>>
    [] o.o \in {"send", "receive", "close"} ->
         /\ o.c \in DOMAIN s.cs /\ s.cs[o.c].ok /\ s.cs[o.c].ends[o.e].open /\ (o.e = 2 => s.cs[o.c].accepted)
         /\ o.o = "send" => s.cs[o.c].ends[Other(o.e)].open
         /\ o.o = "receive" => s.cs[o.c].ends[o.e].in # <<>> \/ ~s.cs[o.c].ends[Other(o.e)].open
    [] o.o \in {"attach", "badAttach", "shut", "take", "takeFrom", "post", "postTo", "badPost"} ->
         /\ o.u \in DOMAIN s.us /\ s.us[o.u].open
         /\ o.o \in {"take", "takeFrom"} => s.us[o.u].in # {}
         /\ o.o = "post" => s.us[o.u].peer = 0 \/ Heard(s, o.u, s.us[o.u].peer)
         /\ o.o = "postTo" => IF s.us[o.u].peer = 0 THEN Bound(s, o.at) # {} ELSE Heard(s, o.u, o.at)
(* Whether it may give a result. *)
Allowed(s, o, r) ==
  CASE o.o = "listen" -> r.ok = (Listening(s, o.at) = {})
    [] o.o = "connect" -> r.ok = (Listening(s, o.at) # {})
    [] o.o = "bind" -> r.ok = (Bound(s, o.at) = {})
    [] o.o \in {"badListen", "badConnect", "badBind", "badAttach", "badPost"} -> r.ok = FALSE
    [] o.o \in {"plainConnect", "attach", "close", "shut", "deaf"} -> r.ok = TRUE
    (* The address tells which connection it is, unless that was made without an address of its own. *)
    [] o.o = "accept" -> LET c == Head(s.ls[o.l].queue) IN r.ok = TRUE /\ r.peer = IF s.cs[c].plain THEN c ELSE 0
    [] o.o = "send" -> r.ok = TRUE /\ r.n <= Len(o.d) /\ (r.n > 0 \/ o.d = <<>>)
    [] o.o = "receive" -> LET b == s.cs[o.c].ends[o.e].in
                          IN /\ r.ok = TRUE
                             /\ Len(r.v) <= Min(o.n, Len(b))
                             /\ Len(r.v) > 0 \/ o.n = 0 \/ b = <<>>
                             /\ r.v = SubSeq(b, 1, Len(r.v))
    [] o.o = "post" -> IF s.us[o.u].peer = 0 \/ o.n > MaxDatagram THEN r.ok = FALSE ELSE r.ok = TRUE /\ r.n = o.n
    [] o.o = "postTo" -> IF o.n > MaxDatagram THEN r.ok = FALSE ELSE r.ok = TRUE /\ r.n = o.n
    (* ids: the datagrams which have just these contents. *)
    [] o.o = "take" -> r.ok = TRUE /\ \E m \in s.us[o.u].in : \E i \in DOMAIN r.ids : r.ids[i] = m.id
    [] o.o = "takeFrom" -> r.ok = TRUE /\ \E m \in s.us[o.u].in : (\E i \in DOMAIN r.ids : r.ids[i] = m.id) /\ r.from = m.from
Least(M) == CHOOSE m \in M : \A x \in M : m.id <= x.id
Taken(s, o, r) == CHOOSE m \in s.us[o.u].in : (\E i \in DOMAIN r.ids : r.ids[i] = m.id) /\ (o.o = "take" \/ r.from = m.from)
NewConn(s, i, plain) ==
  LET l == CHOOSE l \in Listening(s, i) : TRUE
  IN [s EXCEPT !.cs = Append(@, [plain |-> plain, accepted |-> FALSE, ok |-> TRUE, ends |-> <<End, End>>]), !.ls[l].queue = Append(@, Len(s.cs) + 1)]
After(s, o, r) ==
  IF r.ok # TRUE THEN s ELSE
  CASE o.o = "listen" -> [s EXCEPT !.ls = Append(@, [at |-> o.at, open |-> TRUE, queue |-> <<>>])]
    [] o.o = "connect" -> NewConn(s, o.at, FALSE)
    [] o.o = "plainConnect" -> NewConn(s, o.at, TRUE)
    [] o.o = "accept" -> [s EXCEPT !.ls[o.l].queue = Tail(@), !.cs[Head(s.ls[o.l].queue)].accepted = TRUE]
    [] o.o = "deaf" -> [s EXCEPT !.ls[o.l].open = FALSE]
    [] o.o = "send" -> [s EXCEPT !.cs[o.c].ends[Other(o.e)].in = @ \o SubSeq(o.d, 1, r.n)]
    [] o.o = "receive" -> [s EXCEPT !.cs[o.c].ends[o.e].in = SubSeq(@, Len(r.v) + 1, Len(@))]
    (* An end that goes with bytes it has not taken tears the stream down. *)
    [] o.o = "close" -> [s EXCEPT !.cs[o.c].ends[o.e].open = FALSE, !.cs[o.c].ok = s.cs[o.c].ends[o.e].in = <<>>]
    [] o.o = "bind" -> [s EXCEPT !.us = Append(@, [at |-> o.at, open |-> TRUE, peer |-> 0, in |-> {}])]
    [] o.o = "attach" -> [s EXCEPT !.us[o.u].peer = o.at]
    [] o.o = "shut" -> [s EXCEPT !.us[o.u].open = FALSE]
    [] o.o = "post" -> Arrive(s, s.us[o.u].peer, s.us[o.u].at, o.id)
    [] o.o = "postTo" -> Arrive(s, o.at, s.us[o.u].at, o.id)
    [] o.o \in {"take", "takeFrom"} -> [s EXCEPT !.us[o.u].in = @ \ {Taken(s, o, r)}]
    [] OTHER -> s
=============================================================================
