---------------------------------- MODULE Hash ----------------------------------
(* Equality and hashes of strings however they were built, and slots of hash tables taken out of hashes: 64-bit
   numbers are four limbs of 16 bits, the lowest first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Kind

RECURSIVE SeqOf(_, _), Flat(_)
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

-----------------------------------------------------------------------------
(* Ways to build the string s. *)
Bytes == <<97, 98, 0, 255>>
Given(s) == [k |-> "given", s |-> s]
Joined(ss) == [k |-> "joined", ss |-> ss]
Sliced(s, a, b) == [k |-> "sliced", s |-> s, a |-> a, b |-> b]
Nested(s, a) == [k |-> "nested", s |-> s, a |-> a]     \* a string joined to a joined one
Content(w) ==
  CASE w.k = "given" -> w.s [] w.k = "joined" -> Flat(w.ss) [] w.k = "sliced" -> SubSeq(w.s, w.a, w.b) [] w.k = "nested" -> w.s
Ways(s) ==
  LET cuts == IF Len(s) < 5 THEN [k \in 1..Len(s) + 1 |-> k - 1] ELSE <<0, 1, Len(s) \div 2, Len(s) - 1, Len(s)>> IN
  <<Given(s)>>
  \o [k \in 1..Len(cuts) |-> Joined(<<SubSeq(s, 1, cuts[k]), SubSeq(s, cuts[k] + 1, Len(s))>>)]
  \o << Joined([k \in 1..Len(s) |-> <<s[k]>>]), Sliced(<<120>> \o s \o s, 2, Len(s) + 1), Sliced(s \o <<0>>, 1, Len(s)), Sliced(<<255, 97>> \o s, 3, Len(s) + 2) >>
  \o [k \in 1..Len(cuts) |-> Nested(s, cuts[k])]
(* Strings of several lengths, which differ from each other in at most one byte. *)
Lengths == <<7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300>>
Longer(i) ==
  LET n == Lengths[(i \div 4) + 1]
      at == CASE i % 4 = 0 -> 0 [] i % 4 = 1 -> 1 [] i % 4 = 2 -> n [] i % 4 = 3 -> (n \div 2) + 1
  IN [j \in 1..n |-> IF j = at THEN 200 ELSE j % 7]
StringOf(i) == IF i < 85 THEN LET q == SeqOf(i, 4) IN [j \in 1..Len(q) |-> Bytes[q[j] + 1]] ELSE Longer(i - 85)

-----------------------------------------------------------------------------
Base == 65536
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* 31 times one plus another, in 64 bits. *)
RECURSIVE CombineFrom(_, _, _, _)
CombineFrom(a, b, i, carry) ==
  IF i > 4 THEN <<>>
  ELSE LET x == a[i] * 31 + b[i] + carry IN <<x % Base>> \o CombineFrom(a, b, i + 1, x \div Base)
Combine(a, b) == CombineFrom(a, b, 1, 0)
Bit(a, n) == (a[(n \div 16) + 1] \div Pow2(n % 16)) % 2
RECURSIVE Group(_, _, _)
Group(a, n, w) == IF w = 0 \/ n > 63 THEN 0 ELSE Bit(a, n) + (2 * Group(a, n + 1, w - 1))
Levels == 13
(* The slots of a hash, which depend on the hash of the layer of the table too. *)
Slots(h, layer) == LET c == Combine(h, layer) IN [l \in 1..Levels |-> Group(c, 5 * (l - 1), 5) + 1]
Limbs == <<0, 1, 2, 31, 32, 255, 256, 4095, 32767, 32768, 65534, 65535, 21845, 43690, 2114, 63421>>
Pattern(i) == [j \in 1..4 |-> Limbs[((i \div (CASE j = 1 -> 1 [] j = 2 -> 5 [] j = 3 -> 11 [] j = 4 -> 3)) % 16) + 1]]

Traces == IF Kind = "slots" THEN JsonDeserialize(IOEnv.TRACES) ELSE <<>>

Total == CASE Kind = "strings" -> 85 + (4 * Len(Lengths)) [] Kind = "combine" -> 176 [] Kind = "slots" -> Len(Traces)
VARIABLES i, done
vars == <<i, done>>
Init == i \in 1..Total /\ done = FALSE
Case ==
  CASE Kind = "strings" -> LET s == StringOf(i - 1) IN [s |-> s, ways |-> Ways(s)]
    [] Kind = "combine" -> [cs |-> [j \in 1..44 |-> LET a == Pattern(i - 1)
                                                        b == Pattern((i * 7 + j * 4) % 176)
                                                    IN [a |-> a, b |-> b, v |-> Combine(a, b)]]]
Accepted == LET t == Traces[i] IN t[3] = Slots(t[1], t[2])
Consistent == Kind = "strings" => \A j \in 1..Len(Ways(StringOf(i - 1))) : Content(Ways(StringOf(i - 1))[j]) = StringOf(i - 1)
Next == /\ ~done
        /\ IF Kind = "slots" THEN Accepted => PrintT("@@" \o ToString(i)) ELSE PrintT("@@" \o ToJson(Case))
        /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_vars
=============================================================================
