--------------------------- MODULE HappensBefore ---------------------------
(* C11-style happens-before by vector clocks for one atomic location and plain accesses to one payload.           *)
(* m = [vc    |-> thread -> clock,      what each thread knows                                                    *)
(*      pend  |-> thread -> clock,      what relaxed loads have read and an acquire fence would publish           *)
(*      rel   |-> thread -> clock,      what a release fence has prepared for later relaxed stores                *)
(*      loc   |-> clock,                what an acquire load of the location obtains (the release sequence)       *)
(*      rd    |-> thread -> Nat, wr |-> [t, c]]   last plain reads and last plain write of the payload            *)
EXTENDS Naturals, Sequences

Join(a, b) == [t \in DOMAIN a |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Zero(T) == [t \in T |-> 0]
\* Everything before the threads start (by thread 1, say) is known to all of them.
HbInit(T) == [vc |-> [t \in T |-> [u \in T |-> IF u = t THEN 1 ELSE 0]], pend |-> [t \in T |-> Zero(T)],
              rel |-> [t \in T |-> Zero(T)], loc |-> Zero(T), rd |-> Zero(T), wr |-> [t |-> 0, c |-> 0]]
Acquires(o) == o \in {"Acquire", "AcqRel", "SeqCst"}
Releases(o) == o \in {"Release", "AcqRel", "SeqCst"}
Tick(m, t) == [m EXCEPT !.vc[t][t] = @ + 1]

ReadPart(m, t, o) == IF Acquires(o) THEN [m EXCEPT !.vc[t] = Join(@, m.loc)]
                                    ELSE [m EXCEPT !.pend[t] = Join(@, m.loc)]
Load(m, t, o) == Tick(ReadPart(m, t, o), t)
Store(m, t, o) == Tick([m EXCEPT !.loc = IF Releases(o) THEN m.vc[t] ELSE m.rel[t]], t)
Rmw(m, t, o) == LET r == ReadPart(m, t, o) IN
                Tick([r EXCEPT !.loc = Join(@, IF Releases(o) THEN r.vc[t] ELSE r.rel[t])], t)
Fence(m, t, o) == LET a == IF Acquires(o) THEN [m EXCEPT !.vc[t] = Join(@, m.pend[t])] ELSE m IN
                  Tick(IF Releases(o) THEN [a EXCEPT !.rel[t] = a.vc[t]] ELSE a, t)

WriteSeen(m, t) == IF m.wr.t = 0 THEN TRUE ELSE m.vc[t][m.wr.t] >= m.wr.c
ReadsSeen(m, t) == \A u \in DOMAIN m.rd : m.vc[t][u] >= m.rd[u]
RaceFreeRead(m, t) == WriteSeen(m, t)
RaceFreeWrite(m, t) == WriteSeen(m, t) /\ ReadsSeen(m, t)
Read(m, t) == Tick([m EXCEPT !.rd[t] = m.vc[t][t]], t)
Write(m, t) == Tick([m EXCEPT !.wr = [t |-> t, c |-> m.vc[t][t]]], t)
=============================================================================
