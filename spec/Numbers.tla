------------------------------- MODULE Numbers -------------------------------
(* Arithmetic functions on numbers given as eighths, or infinite, or no number; decimal texts of numbers;
   and 64-bit integers as sets of the places of their bits. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Parts, Part

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE SeqOf(_, _), Flat(_)
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

E8(n) == [e |-> n]            \* n eighths
Inf(s) == [inf |-> s]
Nan == [nan |-> 0]
IsE(x) == "e" \in DOMAIN x
IsNan(x) == "nan" \in DOMAIN x
Sign(x) == IF IsE(x) THEN (IF x.e < 0 THEN -1 ELSE 1) ELSE x.inf
Less(x, y) == IF IsE(x) /\ IsE(y) THEN x.e < y.e ELSE IF IsE(x) THEN y.inf > 0 ELSE IF IsE(y) THEN x.inf < 0 ELSE x.inf < y.inf

Floor(n) == (n \div 8) * 8          \* \div rounds down
Trunc(n) == IF n < 0 THEN -Floor(-n) ELSE Floor(n)
Round(n) == IF n < 0 THEN -Floor(-n + 4) ELSE Floor(n + 4)   \* halves away from zero
On(x, f(_), inf) == IF IsE(x) THEN E8(f(x.e)) ELSE IF IsNan(x) THEN Nan ELSE inf
Same(n) == n
Fraction(n) == n - Trunc(n)
Negative(n) == -n

(* The non-negative remainder. *)
Remainder(x, y) ==
  IF IsNan(x) \/ IsNan(y) \/ ~IsE(x) THEN Nan
  ELSE IF ~IsE(y) THEN (IF x.e < 0 THEN [open |-> 0] ELSE x)
  ELSE IF y.e = 0 THEN Nan ELSE E8(x.e % Abs(y.e))
Pick(x, y, least) == IF IsNan(x) \/ IsNan(y) THEN Nan ELSE IF Less(x, y) = least THEN x ELSE y

Small == [i \in 1..53 |-> E8(i - 27)]
Large == <<E8(8000004), E8(8000003), E8(-8000004), E8(-8000011), E8(2147483632), E8(2147483635), E8(-2147483637), E8(1073741820)>>
Special == <<Nan, Inf(1), Inf(-1)>>
Values == Small \o Large \o Special
Call(f, as, v) == [f |-> f, a |-> as, v |-> v]
Unary(x) ==
  << Call("Number'Absolute", <<x>>, On(x, Abs, Inf(1))),
     Call("Number'Ceil", <<x>>, On(x, LAMBDA n : -Floor(-n), x)),
     Call("Number'Floor", <<x>>, On(x, Floor, x)),
     Call("Number'Round", <<x>>, On(x, Round, x)),
     Call("Number'Truncate", <<x>>, On(x, Trunc, x)),
     Call("Number'Fraction", <<x>>, On(x, Fraction, Nan)),
     Call("Number'IsNan", <<x>>, [b |-> IsNan(x)]) >>
Binary(x, y) ==
  << Call("Number'Remainder", <<x, y>>, Remainder(x, y)),
     Call("Number'Maximum", <<x, y>>, Pick(x, y, FALSE)),
     Call("Number'Minimum", <<x, y>>, Pick(x, y, TRUE)) >>
RECURSIVE Pow(_, _), SumOf(_), Range(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
SumOf(s) == IF s = <<>> THEN 0 ELSE s[1] + SumOf(Tail(s))
Range(a, b) == IF a > b THEN <<>> ELSE <<E8(a)>> \o Range(a + 8, b)
Other ==
  Flat([b \in 1..21 |-> [n \in 1..6 |-> Call("Number'Power", <<E8((b - 11) * 8), E8((n - 1) * 8)>>, E8(Pow(b - 11, n - 1) * 8))]])
  \o << Call("Number'Power", <<E8(16), E8(-8)>>, E8(4)), Call("Number'Power", <<E8(16), E8(-24)>>, E8(1)), Call("Number'Power", <<E8(32), E8(4)>>, E8(16)), Call("Number'Power", <<E8(2), E8(8)>>, E8(2)) >>
  \o [n \in 1..60 |-> Call("Number'SquareRoot", <<E8((n - 1) * (n - 1) * 8)>>, E8((n - 1) * 8))]
  \o << Call("Number'SquareRoot", <<E8(2)>>, E8(4)), Call("Number'SquareRoot", <<E8(-8)>>, Nan), Call("Number'SquareRoot", <<Inf(1)>>, Inf(1)), Call("Number'SquareRoot", <<Nan>>, Nan),
        Call("Number'Exponential", <<E8(0)>>, E8(8)), Call("Number'Exponential", <<Inf(-1)>>, E8(0)), Call("Number'Exponential", <<Inf(1)>>, Inf(1)), Call("Number'Exponential", <<Nan>>, Nan),
        Call("Number'Infinity", <<>>, Inf(1)), Call("Number'Nan", <<>>, Nan) >>
  \o Flat([a \in 1..9 |-> [b \in 1..9 |-> Call("Number'Range", <<E8((a - 3) * 6), E8((b - 3) * 8)>>, [l |-> Range((a - 3) * 6, (b - 3) * 8)])]])
  \o [b \in 1..12 |-> Call("Number'Sequence", <<E8((b - 3) * 4)>>, [l |-> Range(8, (b - 3) * 4)])]
  \o [i \in 1..156 |-> LET q == SeqOf(i - 1, 5)
                           s == [j \in 1..Len(q) |-> <<0, 8, -4, 13, 8000>>[q[j] + 1]]
                       IN Call("Number'Sum", <<[l |-> [j \in 1..Len(s) |-> E8(s[j])]]>>, E8(SumOf(s)))]

-----------------------------------------------------------------------------
(* Texts of numbers: sign, digits with a point, and an exponent; at least one digit before or after the point. *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digit(c) == CHOOSE n \in 0..9 : ToString(n) = c
RECURSIVE Span(_, _), Value(_, _)
(* The place after the digits that begin at i. *)
Span(s, i) == IF i <= Len(s) /\ s[i] \in Digits THEN Span(s, i + 1) ELSE i
Value(s, n) == IF s = <<>> THEN n ELSE Value(Tail(s), n * 10 + Digit(s[1]))
Bad == [bad |-> 0]
Parse(s) ==
  LET signed(i) == i <= Len(s) /\ s[i] \in {"+", "-"}
      a == IF signed(1) THEN 2 ELSE 1
      b == Span(s, a)
      point == b <= Len(s) /\ s[b] = "."
      c == IF point THEN Span(s, b + 1) ELSE b
      whole == SubSeq(s, a, b - 1)
      part == IF point THEN SubSeq(s, b + 1, c - 1) ELSE <<>>
      exp == c <= Len(s) /\ s[c] \in {"e", "E"}
      d == IF ~exp THEN c ELSE IF signed(c + 1) THEN c + 2 ELSE c + 1
      z == IF exp THEN Span(s, d) ELSE d
      x == IF exp THEN (IF signed(c + 1) /\ s[c + 1] = "-" THEN -1 ELSE 1) * Value(SubSeq(s, d, z - 1), 0) ELSE 0
  IN IF z # Len(s) + 1 \/ (whole = <<>> /\ part = <<>>) \/ (exp /\ z = d) THEN Bad
     ELSE [m |-> (IF signed(1) /\ s[1] = "-" THEN -1 ELSE 1) * Value(whole \o part, 0), neg |-> signed(1) /\ s[1] = "-", x |-> x - Len(part)]

Chars == <<"0", "1", "2", ".", "-", "+", "e", "E", "_", " ", "x">>
Text(q) == [j \in 1..Len(q) |-> Chars[q[j] + 1]]
Texts(i) == Text(SeqOf(i, Len(Chars)))
(* Longer ones out of parts. *)
Signs == <<<<>>, <<"-">>, <<"+">>, <<"-", "-">>>>
Wholes == <<<<>>, <<"0">>, <<"7">>, <<"1", "0">>, <<"0", "0", "3">>, <<"1", "2", "3", "4", "5">>, <<"1", "e", "2">>>>
Fractions == <<<<>>, <<".">>, <<".", "5">>, <<".", "0", "0">>, <<".", "1", "2", "5", "0">>, <<".", ".">>, <<".", "-", "1">>>>
Exponents == <<<<>>, <<"e", "3">>, <<"E", "-", "2">>, <<"e", "+", "1", "0">>, <<"e">>, <<"e", "-">>, <<"e", "0", "0">>, <<"e", "1", ".", "5">>, <<" ">>, <<"E", "3", "0">>, <<"e", "-", "3", "0">>>>
Composed(i) == Signs[(i % 4) + 1] \o Wholes[((i \div 4) % 7) + 1] \o Fractions[((i \div 28) % 7) + 1] \o Exponents[((i \div 196) % 11) + 1]

(* The text of a number without an exponent, with neither idle zeros nor an idle point: the digits ds times ten to the x. *)
Zeros(n) == [j \in 1..n |-> "0"]
Canonical(neg, ds, x) ==
  (IF neg THEN <<"-">> ELSE <<>>) \o
  IF x >= 0 THEN ds \o Zeros(x)
  ELSE IF -x >= Len(ds) THEN <<"0", ".">> \o Zeros(-x - Len(ds)) \o ds
  ELSE SubSeq(ds, 1, Len(ds) + x) \o <<".">> \o SubSeq(ds, Len(ds) + x + 1, Len(ds))
DigitSeqs == <<<<"1">>, <<"7">>, <<"1", "2">>, <<"9", "9">>, <<"1", "0", "1">>, <<"2", "5">>, <<"1", "2", "3", "4", "5">>, <<"9", "0", "0", "7", "1", "9", "9">>, <<"3", "1", "4", "1", "5", "9", "2", "6", "5">>, <<"1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "1", "2", "3", "4", "5">>>>
CanonicalOf(i) == [t |-> Canonical(i % 2 = 1, DigitSeqs[((i \div 2) % 10) + 1], ((i \div 20) % 45) - 22)]

-----------------------------------------------------------------------------
(* Sets of the places of the bits that are set. *)
Places == 0..63
Integers == << {}, {0}, {1}, {63}, {0, 63}, 0..63, 0..31, 32..63, {0, 2, 4, 6, 33, 35, 62}, {b \in 0..63 : b % 2 = 0}, {b \in 0..63 : b % 3 = 0}, 0..51, 52..62, {52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 0}, {51, 62}, {7, 8, 9}, 12..40 >>
Counts == <<0, 1, 2, 3, 7, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 65535, 65536, 65600, 16777216, 16777219, 2000000000>>
Left(x, n) == {b \in Places : b - n \in x}
Right(x, n) == {b \in Places : b + n \in x}
BitOps(i) ==
  LET x == Integers[i + 1] IN
  << [f |-> "Bit'Not", a |-> <<x>>, v |-> Places \ x] >>
  \o Flat([j \in 1..Len(Integers) |-> LET y == Integers[j] IN
       << [f |-> "Bit'And", a |-> <<x, y>>, v |-> x \cap y], [f |-> "Bit'Or", a |-> <<x, y>>, v |-> x \cup y], [f |-> "Bit'Xor", a |-> <<x, y>>, v |-> (x \ y) \cup (y \ x)] >>])
Shifts(i) ==
  LET x == Integers[i + 1] IN
  Flat([j \in 1..Len(Counts) |-> << [f |-> "Bit'LeftShift", x |-> x, n |-> Counts[j], v |-> Left(x, Counts[j])], [f |-> "Bit'RightShift", x |-> x, n |-> Counts[j], v |-> Right(x, Counts[j])] >>])
(* Integers of at most 20 bits times a power of two are numbers exactly. *)
Mantissas == <<1, 3, 5, 1023, 524289, 699051>>
Exact(i) == {b \in 0..19 : (Mantissas[(i % 6) + 1] \div Pow(2, b)) % 2 = 1}
Conversion(i) == LET e == (i \div 6) % 45 IN [m |-> Mantissas[(i % 6) + 1], x |-> e, v |-> {b + e : b \in Exact(i)}]

-----------------------------------------------------------------------------
Total == CASE Kind = "values" -> Len(Values) [] Kind = "other" -> 1 [] Kind = "texts" -> 16105 [] Kind = "composed" -> 2156 [] Kind = "canonical" -> 900
           [] Kind = "bits" -> Len(Integers) [] Kind = "conversions" -> 270
VARIABLES i, done
vars == <<i, done>>
Init == i \in {n \in 0..Total - 1 : n % Parts = Part} /\ done = FALSE
Case ==
  CASE Kind = "values" -> Unary(Values[i + 1]) \o Flat([j \in 1..Len(Values) |-> Binary(Values[i + 1], Values[j])])
    [] Kind = "other" -> Other
    [] Kind = "texts" -> [t |-> Texts(i), v |-> Parse(Texts(i))]
    [] Kind = "composed" -> [t |-> Composed(i), v |-> Parse(Composed(i))]
    [] Kind = "canonical" -> CanonicalOf(i)
    [] Kind = "bits" -> [ops |-> BitOps(i), shifts |-> Shifts(i)]
    [] Kind = "conversions" -> Conversion(i)
(* Remainders and whole parts add up; shifting back and forth loses only the bits that leave. *)
Consistent ==
  CASE Kind = "values" -> LET x == Values[i + 1] IN IsE(x) => x.e = Trunc(x.e) + Fraction(x.e) /\ Abs(Round(x.e) - x.e) <= 4 /\ Floor(x.e) <= x.e /\ \A n \in {1, 3, 8, 20} : (x.e - (x.e % n)) % n = 0
    [] Kind = "bits" -> \A j \in 1..Len(Counts) : LET x == Integers[i + 1] IN Right(Left(x, Counts[j]), Counts[j]) = {b \in x : b + Counts[j] <= 63}
    [] Kind = "canonical" -> \A j \in 1..1 : Parse(IF Len(CanonicalOf(i).t) < 9 THEN CanonicalOf(i).t ELSE <<"0">>) # Bad
    [] OTHER -> TRUE
Next == ~done /\ PrintT("@@" \o ToJson(Case)) /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_vars
=============================================================================
