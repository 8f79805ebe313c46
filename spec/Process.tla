------------------------------ MODULE Process -------------------------------
(* What a process sees of its surroundings, and what these see of it: its arguments, variables, clock, input, output and the
   commands it runs. Start says how the process is begun; a state holds what has happened since. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Text(d) == \A i \in DOMAIN d : d[i] < 128 \/ (d[i] = 195 /\ i < Len(d) /\ d[i + 1] = 169) \/ (d[i] = 169 /\ i > 1 /\ d[i - 1] = 195)
Whole(d) == Text(d) /\ \A i \in DOMAIN d : d[i] # 0
Min(a, b) == IF a < b THEN a ELSE b

(* A start: args is the sequence of arguments, names and values are the variables, command is the name of one which can be run
   and failing the name of one which ends with an error, and input is what comes in. *)
First == [pos |-> 0, out |-> <<>>, err |-> <<>>, time |-> 0, over |-> FALSE, code |-> 0]
Value(st, n) == LET ks == {i \in DOMAIN st.names : st.names[i] = n} IN IF ks = {} THEN <<>> ELSE <<st.values[CHOOSE i \in ks : TRUE]>>
Gives(r, v) == r.ok = TRUE /\ r.v = v
Fails(r) == r.ok = FALSE
Rest(st, s) == SubSeq(st.input, s.pos + 1, Len(st.input))

(* Whether an operation may give a result in a state. *)
Allowed(st, s, o, r) ==
  CASE o.o = "arguments" -> r.v = st.args
    [] o.o = "variable" -> LET v == Value(st, o.n) IN IF Whole(o.n) /\ v # <<>> /\ Text(v[1]) THEN Gives(r, v[1]) ELSE Fails(r)
    [] o.o = "now" -> r.whole /\ r.a <= r.x /\ r.x <= r.b /\ s.time <= r.x
    [] o.o = "sleep" -> r.b - r.a >= 1000 * o.n
    [] o.o = "run" -> IF o.c \in {st.command, st.failing} /\ \A i \in DOMAIN o.as : Whole(o.as[i])
                      THEN (r.ok = TRUE \/ o.c = st.failing) /\ r.ran = <<o.as>>
                      ELSE r.ok = FALSE /\ r.ran = <<>>
    [] o.o = "read" -> Gives(r, Rest(st, s))
    [] o.o = "limit" -> /\ r.ok = TRUE
                        /\ Len(r.v) <= Min(o.n, Len(Rest(st, s)))
                        /\ Len(r.v) > 0 \/ o.n = 0 \/ Rest(st, s) = <<>>
                        /\ r.v = SubSeq(Rest(st, s), 1, Len(r.v))
    [] o.o \in {"out", "err"} -> r.ok = TRUE /\ Len(r.v) = 1 /\ r.v[1] <= Len(o.d) /\ (r.v[1] > 0 \/ o.d = <<>>)
    [] o.o = "exit" -> TRUE
    [] o.o = "end" -> r.code = s.code /\ r.out = s.out /\ r.err = s.err
After(s, o, r) ==
  CASE o.o = "now" -> [s EXCEPT !.time = r.x]
    [] o.o \in {"read", "limit"} -> [s EXCEPT !.pos = @ + Len(r.v)]
    [] o.o = "out" -> [s EXCEPT !.out = @ \o SubSeq(o.d, 1, r.v[1])]
    [] o.o = "err" -> [s EXCEPT !.err = @ \o SubSeq(o.d, 1, r.v[1])]
    [] o.o = "exit" -> [s EXCEPT !.over = TRUE, !.code = o.n % 256]
    [] o.o = "end" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> s
=============================================================================
