------------------------------ MODULE Literals ------------------------------
(* What literals in a module denote: string literals are sequences of plain characters and of escapes, read once from left to
   right, each of which denotes bytes; numbers are written in decimals, or as binary or hexadecimal integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Parts, Part

RECURSIVE SeqOf(_, _), Flat(_)
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Pieces(ss, of(_)) == Flat([j \in 1..Len(ss) |-> of(ss[j])])

(* What is written between the quotes, and the bytes which it denotes. *)
Backslash == "\\"
Quote == "\""
Plain(c, bs) == [t |-> <<c>>, b |-> bs]
Escaped(c, b) == [t |-> <<Backslash, c>>, b |-> <<b>>]
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte(n) == [t |-> <<Backslash, "x", Hex[(n \div 16) + 1], Hex[(n % 16) + 1]>>, b |-> <<n>>]
Few == << Escaped(Backslash, 92), Escaped(Quote, 34), Escaped("n", 10), Escaped("t", 9), Escaped("r", 13), HexByte(65), HexByte(92), HexByte(34), HexByte(128),
          Plain("n", <<110>>), Plain("x", <<120>>), Plain("4", <<52>>), Plain("1", <<49>>) >>
Others == << Plain(" ", <<32>>), Plain("#", <<35>>), Plain("{", <<123>>), Plain("r", <<114>>), Plain("t", <<116>>), Plain("a", <<97>>), Plain("'", <<39>>), Plain("\n", <<10>>), Plain("\t", <<9>>), Plain("U+E9", <<195, 169>>),
             Plain("U+6F22", <<230, 188, 162>>), Plain("%", <<37>>), Plain("$", <<36>>), Plain("0", <<48>>) >>
Many == Few \o Others \o [n \in 1..256 |-> HexByte(n - 1)]
Written(units) == [t |-> Pieces(units, LAMBDA u : u.t), b |-> Pieces(units, LAMBDA u : u.b)]
FewOf(i) == LET q == SeqOf(i, Len(Few)) IN Written([j \in 1..Len(q) |-> Few[q[j] + 1]])
ManyOf(i) == LET q == SeqOf(i, Len(Many)) IN Written([j \in 1..Len(q) |-> Many[q[j] + 1]])
RECURSIVE Random(_, _)
Random(n, m) == IF n = 0 THEN <<>> ELSE <<Many[RandomElement(1..m)]>> \o Random(n - 1, m)

(* Reading what is written gives back the bytes, however it is cut into units: the literal is read in one pass. *)
Nibble(c) == (CHOOSE n \in 1..16 : Hex[n] = c) - 1
ByteOf(c) == LET s == {j \in 1..Len(Few \o Others) : (Few \o Others)[j].t = <<c>>} IN (Few \o Others)[CHOOSE j \in s : TRUE].b
RECURSIVE Read(_, _)
Read(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] # Backslash THEN ByteOf(t[i]) \o Read(t, i + 1)
  ELSE IF t[i + 1] = "x" THEN <<Nibble(t[i + 2]) * 16 + Nibble(t[i + 3])>> \o Read(t, i + 4)
  ELSE <<CASE t[i + 1] = "n" -> 10 [] t[i + 1] = "r" -> 13 [] t[i + 1] = "t" -> 9 [] t[i + 1] = Backslash -> 92 [] t[i + 1] = Quote -> 34>> \o Read(t, i + 2)

-----------------------------------------------------------------------------
(* Numbers: decimals as digits times a power of ten, integers as sets of the places of their bits. *)
RECURSIVE Value(_, _)
Digit(c) == CHOOSE n \in 0..9 : Hex[n + 1] = c
Value(s, n) == IF s = <<>> THEN n ELSE Value(Tail(s), n * 10 + Digit(s[1]))
Signs == <<[t |-> <<>>, v |-> 1], [t |-> <<"-">>, v |-> -1], [t |-> <<"+">>, v |-> 1]>>
Wholes == << <<"0">>, <<"7">>, <<"1", "0">>, <<"0", "0", "3">>, <<"1", "2", "3", "4", "5">>, <<"9", "0">>, <<>> >>
Fractions == << <<>>, <<".", "5">>, <<".", "0", "0">>, <<".", "1", "2", "5", "0">>, <<".", "1">>, <<".", "0", "3">>, <<".">> >>
Exponents == << [t |-> <<>>, v |-> 0], [t |-> <<"e", "3">>, v |-> 3], [t |-> <<"E", "-", "2">>, v |-> -2], [t |-> <<"e", "+", "1", "0">>, v |-> 10], [t |-> <<"e", "0", "0">>, v |-> 0], [t |-> <<"E", "3", "0">>, v |-> 30],
                [t |-> <<"e", "-", "3", "0">>, v |-> -30], [t |-> <<"e", "2", "2">>, v |-> 22] >>
Decimal(i) ==
  LET s == Signs[(i % 3) + 1]
      w == Wholes[((i \div 3) % 7) + 1]
      f == Fractions[((i \div 21) % 7) + 1]
      e == Exponents[((i \div 147) % 8) + 1]
      ds == IF f = <<>> THEN <<>> ELSE Tail(f)
  IN [t |-> s.t \o w \o f \o e.t, well |-> w \o ds # <<>>, neg |-> s.v < 0, m |-> s.v * Value(w \o ds, 0), x |-> e.v - Len(ds)]
Upper == [c \in {"a", "b", "c", "d", "e", "f"} |-> CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F"]
(* The value of digits in which each stands for n bits. *)
BitsOf(ds, n) == {b \in 0..(n * Len(ds) - 1) : (Nibble(ds[Len(ds) - (b \div n)]) \div (2 ^ (b % n))) % 2 = 1}
Binary(i) == LET q == SeqOf(i + 1, 2) IN [t |-> <<"0", "b">> \o [j \in 1..Len(q) |-> Hex[q[j] + 1]], v |-> BitsOf([j \in 1..Len(q) |-> Hex[q[j] + 1]], 1)]
Hexadecimal(ds, up) == [t |-> <<"0", "x">> \o [j \in 1..Len(ds) |-> IF up /\ ds[j] \in DOMAIN Upper THEN Upper[ds[j]] ELSE ds[j]], v |-> BitsOf(ds, 4)]
HexOf(i) == LET q == SeqOf(i + 1, 16) IN Hexadecimal([j \in 1..Len(q) |-> Hex[q[j] + 1]], i % 2 = 1)
Long(n, base) == [j \in 1..n |-> Hex[RandomElement(1..base)]]
LongOf(i) == IF i % 2 = 0 THEN Hexadecimal(Long(9 + ((i \div 2) % 8), 16), i % 3 = 1)
             ELSE LET d == Long(20 + ((i \div 2) % 45), 2) IN [t |-> <<"0", "b">> \o d, v |-> BitsOf(d, 1)]

Total == CASE Kind = "few" -> 1 + 13 + 169 + 2197 [] Kind = "all" -> 1 + 13 + 169 + 2197 + 28561 [] Kind = "many" -> 1 + 283 [] Kind = "random" -> 400 [] Kind = "decimals" -> 1176 [] Kind = "binary" -> 254 [] Kind = "hexadecimal" -> 272 [] Kind = "long" -> 200
VARIABLES i, done, case
vars == <<i, done, case>>
Case(n) ==
  CASE Kind \in {"few", "all"} -> FewOf(n) [] Kind = "many" -> ManyOf(n) [] Kind = "random" -> Written(Random(1 + (n % 9), IF n % 2 = 0 THEN Len(Few) + Len(Others) ELSE Len(Many)))
    [] Kind = "decimals" -> Decimal(n) [] Kind = "binary" -> Binary(n) [] Kind = "hexadecimal" -> HexOf(n) [] Kind = "long" -> LongOf(n)
Init == i \in {n \in 0..Total - 1 : n % Parts = Part} /\ done = FALSE /\ case = Case(i)
Once == "b" \in DOMAIN case => Read(case.t, 1) = case.b
Next == ~done /\ PrintT("@@" \o ToJson(case)) /\ done' = TRUE /\ UNCHANGED <<i, case>>
Spec == Init /\ [][Next]_vars
=============================================================================
