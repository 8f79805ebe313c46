------------------------------ MODULE JsonText ------------------------------
(* JSON texts by their grammar (RFC 8259): which sequences of characters are values, and which value each is. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Kind, Parts, Part

RECURSIVE SeqOf(_, _), Flat(_)
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

-----------------------------------------------------------------------------
(* Characters are strings of one character; their bytes. *)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexUpper == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Signs == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/">>
Control == {"\n", "\r", "\t", "\f"}
ByteOf(c) ==
  IF c \in Digits THEN <<47 + (CHOOSE n \in 1..10 : Hex[n] = c)>>
  ELSE IF \E n \in 1..26 : Letters[n] = c THEN <<96 + (CHOOSE n \in 1..26 : Letters[n] = c)>>
  ELSE IF \E n \in 1..16 : Signs[n] = c THEN <<31 + (CHOOSE n \in 1..16 : Signs[n] = c)>>
  ELSE CASE c = "\n" -> <<10>> [] c = "\r" -> <<13>> [] c = "\t" -> <<9>> [] c = "\f" -> <<12>> [] c = "\\" -> <<92>> [] c = ":" -> <<58>> [] c = "[" -> <<91>> [] c = "]" -> <<93>> [] c = "{" -> <<123>> [] c = "}" -> <<125>>
         [] c = "E" -> <<69>> [] c = "A" -> <<65>> [] c = "D" -> <<68>> [] c = "F" -> <<70>> [] c = "<" -> <<60>> [] c = "U+E9" -> <<195, 169>> [] c = "U+6F22" -> <<230, 188, 162>>
Utf8(n) ==
  IF n < 128 THEN <<n>>
  ELSE IF n < 2048 THEN <<192 + (n \div 64), 128 + (n % 64)>>
  ELSE IF n < 65536 THEN <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
  ELSE <<240 + (n \div 262144), 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>

(* Values. Objects are sequences of their members; what is open may be taken in any way. *)
Null == [k |-> "null"]
Bool(b) == [k |-> "boolean", b |-> b]
Number(m, x, neg) == [k |-> "number", m |-> m, x |-> x, neg |-> neg]
Str(bs) == [k |-> "string", s |-> bs]
Array(vs) == [k |-> "array", vs |-> vs]
Object(ms) == [k |-> "object", ms |-> ms]
Open == [k |-> "open"]
RECURSIVE IsOpen(_), Same(_, _)
IsOpen(v) == CASE v.k = "open" -> TRUE [] v.k = "array" -> \E j \in DOMAIN v.vs : IsOpen(v.vs[j]) [] v.k = "object" -> \E j \in DOMAIN v.ms : IsOpen(v.ms[j].v) [] OTHER -> FALSE
(* Digits times a power of ten which are equal. *)
RECURSIVE Lowest(_, _)
Lowest(m, x) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Lowest(m \div 10, x + 1) ELSE <<m, x>>
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "boolean" -> a.b = b.b
       [] a.k = "number" -> Lowest(a.m, a.x) = Lowest(b.m, b.x) /\ a.neg = b.neg
       [] a.k = "string" -> a.s = b.s
       [] a.k = "array" -> Len(a.vs) = Len(b.vs) /\ \A j \in DOMAIN a.vs : Same(a.vs[j], b.vs[j])
       [] a.k = "object" -> Len(a.ms) = Len(b.ms) /\ \A j \in DOMAIN a.ms : \E i \in DOMAIN b.ms : a.ms[j].n = b.ms[i].n /\ Same(a.ms[j].v, b.ms[i].v)
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The grammar. A reader gives the place after what it has read, and the value of that, or nothing. *)
Bad == [ok |-> FALSE]
Good(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE "end"
RECURSIVE Blank(_, _), Span(_, _), ValueOf(_, _), Chars(_, _, _, _), Elements(_, _, _), Members(_, _, _), Read(_, _)
Blank(t, i) == IF At(t, i) \in {" ", "\t", "\n", "\r"} THEN Blank(t, i + 1) ELSE i
Span(t, i) == IF At(t, i) \in Digits THEN Span(t, i + 1) ELSE i
ValueOf(s, n) == IF s = <<>> THEN n ELSE ValueOf(Tail(s), n * 10 + (CHOOSE d \in 0..9 : Hex[d + 1] = s[1]))
Word(t, i, w, v) == IF \A j \in DOMAIN w : At(t, i + j - 1) = w[j] THEN Good(v, i + Len(w)) ELSE Bad
Numeral(t, i) ==
  LET neg == At(t, i) = "-"
      a == IF neg THEN i + 1 ELSE i
      b == IF At(t, a) = "0" THEN a + 1 ELSE Span(t, a)
      point == At(t, b) = "."
      c == IF point THEN Span(t, b + 1) ELSE b
      e == At(t, c) \in {"e", "E"}
      d == IF ~e THEN c ELSE IF At(t, c + 1) \in {"+", "-"} THEN c + 2 ELSE c + 1
      z == IF e THEN Span(t, d) ELSE d
  IN IF b = a \/ (point /\ c = b + 1) \/ (e /\ z = d) THEN Bad
     ELSE LET m == ValueOf(SubSeq(t, a, b - 1) \o (IF point THEN SubSeq(t, b + 1, c - 1) ELSE <<>>), 0)
              x == (IF e THEN (IF At(t, c + 1) = "-" THEN -1 ELSE 1) * ValueOf(SubSeq(t, d, z - 1), 0) ELSE 0) - (IF point THEN c - b - 1 ELSE 0)
          IN Good(Number(m, x, neg), z)
IsHex(c) == \E n \in 1..16 : Hex[n] = c \/ HexUpper[n] = c
Nibble(c) == (CHOOSE n \in 1..16 : Hex[n] = c \/ HexUpper[n] = c) - 1
Unit(t, i) == IF \A j \in 0..3 : IsHex(At(t, i + j)) THEN ((Nibble(t[i]) * 16 + Nibble(t[i + 1])) * 16 + Nibble(t[i + 2])) * 16 + Nibble(t[i + 3]) ELSE -1
(* The characters of a string from i on; open once a character stands there whose meaning the grammar leaves open. *)
Chars(t, i, bs, open) ==
  LET c == At(t, i)
      d == At(t, i + 1)
      esc == [x \in {"\"", "\\", "/", "b", "f", "n", "r", "t"} |-> CASE x = "b" -> <<8>> [] x = "f" -> <<12>> [] x = "n" -> <<10>> [] x = "r" -> <<13>> [] x = "t" -> <<9>> [] OTHER -> ByteOf(x)]
  IN IF c = "end" THEN Bad
     ELSE IF c = "\"" THEN Good(IF open THEN Open ELSE Str(bs), i + 1)
     ELSE IF c \in Control THEN Chars(t, i + 1, bs, TRUE)
     ELSE IF c # "\\" THEN Chars(t, i + 1, bs \o ByteOf(c), open)
     ELSE IF d \in DOMAIN esc THEN Chars(t, i + 2, bs \o esc[d], open)
     ELSE IF d # "u" \/ Unit(t, i + 2) < 0 THEN Bad
     ELSE LET n == Unit(t, i + 2)
              m == IF At(t, i + 6) = "\\" /\ At(t, i + 7) = "u" THEN Unit(t, i + 8) ELSE -1
          IN IF n \in 55296..56319 /\ m \in 56320..57343 THEN Chars(t, i + 12, bs \o Utf8(65536 + (n - 55296) * 1024 + (m - 56320)), open)
             ELSE IF n \in 55296..57343 THEN Chars(t, i + 6, bs, TRUE)   \* half of a pair
             ELSE Chars(t, i + 6, bs \o Utf8(n), open)
String(t, i) == IF At(t, i) = "\"" THEN Chars(t, i + 1, <<>>, FALSE) ELSE Bad
Elements(t, i, vs) ==
  LET r == Read(t, i) IN
  IF ~r.ok THEN Bad
  ELSE LET j == Blank(t, r.i)
       IN IF At(t, j) = "," THEN Elements(t, j + 1, Append(vs, r.v)) ELSE IF At(t, j) = "]" THEN Good(Array(Append(vs, r.v)), j + 1) ELSE Bad
Members(t, i, ms) ==
  LET n == String(t, Blank(t, i)) IN
  IF ~n.ok THEN Bad
  ELSE LET c == Blank(t, n.i) IN
  IF At(t, c) # ":" THEN Bad
  ELSE LET r == Read(t, c + 1) IN
  IF ~r.ok THEN Bad
  ELSE LET j == Blank(t, r.i)
           \* the same name twice
           twice == n.v.k = "open" \/ \E x \in DOMAIN ms : ms[x].n = n.v.s
           m == Append(ms, [n |-> IF n.v.k = "open" THEN <<>> ELSE n.v.s, v |-> IF twice THEN Open ELSE r.v])
       IN IF At(t, j) = "," THEN Members(t, j + 1, m) ELSE IF At(t, j) = "}" THEN Good(Object(m), j + 1) ELSE Bad
Read(t, a) ==
  LET i == Blank(t, a)
      c == At(t, i)
  IN CASE c = "n" -> Word(t, i, <<"n", "u", "l", "l">>, Null)
       [] c = "t" -> Word(t, i, <<"t", "r", "u", "e">>, Bool(TRUE))
       [] c = "f" -> Word(t, i, <<"f", "a", "l", "s", "e">>, Bool(FALSE))
       [] c = "\"" -> String(t, i)
       [] c = "[" -> IF At(t, Blank(t, i + 1)) = "]" THEN Good(Array(<<>>), Blank(t, i + 1) + 1) ELSE Elements(t, i + 1, <<>>)
       [] c = "{" -> IF At(t, Blank(t, i + 1)) = "}" THEN Good(Object(<<>>), Blank(t, i + 1) + 1) ELSE Members(t, i + 1, <<>>)
       [] OTHER -> Numeral(t, i)
(* The value of a text. *)
Parse(t) == LET r == Read(t, 1) IN IF ~r.ok \/ Blank(t, r.i) # Len(t) + 1 THEN [k |-> "bad"] ELSE IF IsOpen(r.v) THEN Open ELSE r.v

-----------------------------------------------------------------------------
(* Texts. *)
Pieces == << <<"[">>, <<"]">>, <<"{">>, <<"}">>, <<",">>, <<":">>, <<"\"", "a", "\"">>, <<"0">>, <<"-">>, <<"1">>, <<".">>, <<"e">>, <<" ">>, <<"n", "u", "l", "l">>, <<"t", "r", "u", "e">>, <<"\"">> >>
Joined(q, ps) == Flat([j \in 1..Len(q) |-> ps[q[j] + 1]])
Units == << <<"a">>, <<"\\", "\"">>, <<"\\", "\\">>, <<"\\", "/">>, <<"\\", "b">>, <<"\\", "f">>, <<"\\", "n">>, <<"\\", "r">>, <<"\\", "t">>, <<"\\", "u", "0", "0", "4", "1">>, <<"\\", "u", "0", "0", "E", "9">>,
            <<"\\", "u", "0", "0", "2", "2">>, <<"\\", "u", "6", "f", "2", "2">>, <<"\\", "u", "d", "8", "3", "d">>, <<"\\", "u", "D", "E", "0", "0">>, <<"\\">>, <<"u">>, <<"0">>, <<"U+E9">>, <<"/">>, <<"n">>, <<" ">>, <<"\n">>, <<"\\", "x">> >>
Body(q) == <<"\"">> \o Joined(q, Units) \o <<"\"">>
NumeralSigns == << <<>>, <<"-">>, <<"+">>, <<"-", "-">>, <<"-", " ">> >>
Wholes == << <<"0">>, <<"7">>, <<"1", "0">>, <<"0", "0">>, <<"0", "3">>, <<"1", "2", "3", "4">>, <<>> >>
Fractions == << <<>>, <<".">>, <<".", "5">>, <<".", "0", "0">>, <<".", "1", "2", "5", "0">>, <<".", "-", "1">>, <<".", "5", ".", "5">> >>
Exponents == << <<>>, <<"e", "3">>, <<"E", "-", "2">>, <<"e", "+", "1", "0">>, <<"e">>, <<"E", "-">>, <<"e", "0", "0">>, <<"e", "1", ".", "5">>, <<" ">>, <<"E", "3", "0">>, <<"e", "-", "3", "0">>, <<" ", "e", "1">> >>
Composed(i) == NumeralSigns[(i % 5) + 1] \o Wholes[((i \div 5) % 7) + 1] \o Fractions[((i \div 35) % 7) + 1] \o Exponents[((i \div 245) % 12) + 1]

(* Well-formed texts of several tokens, and each of them with any one token, or two neighbours, taken out, replaced or added. *)
Q == <<"\"", "a", "\"">>
P == <<"\"", "b", "\"">>
Bases == << << <<"{">>, Q, <<":">>, <<"1">>, <<"}">> >>, << <<"[">>, <<"1">>, <<",">>, <<"0">>, <<"]">> >>, << <<"{">>, Q, <<":">>, <<"{">>, <<"}">>, <<",">>, P, <<":">>, <<"[">>, <<"]">>, <<"}">> >>,
            << <<"[">>, <<"[">>, <<"]">>, <<",">>, <<"[">>, <<"1">>, <<"]">>, <<",">>, <<"{">>, <<"}">>, <<"]">> >>, << <<"[">>, <<"{">>, Q, <<":">>, Q, <<"}">>, <<",">>, Q, <<"]">> >>,
            << <<"{">>, Q, <<":">>, <<"[">>, <<"1">>, <<",">>, <<"1">>, <<"]">>, <<",">>, P, <<":">>, <<"n", "u", "l", "l">>, <<"}">> >>, << <<"-">>, <<"1">>, <<"0">>, <<".">>, <<"1">>, <<"0">>, <<"e">>, <<"-">>, <<"1">>, <<"0">> >>,
            << <<"{">>, P, <<":">>, <<"{">>, P, <<":">>, <<"{">>, P, <<":">>, <<"t", "r", "u", "e">>, <<"}">>, <<"}">>, <<"}">> >> >>
Others == Pieces \o << P, <<"\n">>, <<"f", "a", "l", "s", "e">>, <<"+">> >>
Changes(n) ==
  LET base == Bases[(n % 8) + 1]
      at == (((n \div 8) % 14) % (Len(base) + 1)) + 1
      how == (n \div 112) % 4
      c == Others[((n \div 448) % 20) + 1]
      before == SubSeq(base, 1, at - 1)
  IN Flat(CASE how = 0 -> before \o <<c>> \o SubSeq(base, at, Len(base)) [] how = 1 -> before \o <<c>> \o SubSeq(base, at + 1, Len(base))
            [] how = 2 -> before \o SubSeq(base, at + 1 + (((n \div 448) % 20) % 3), Len(base)) [] how = 3 -> before \o <<c, c>> \o SubSeq(base, at, Len(base)))

(* Values of depth d at most, at random, and their texts with blanks between their tokens. *)
Bytes == <<34, 92, 47, 8, 9, 10, 12, 13, 97, 110, 48, 0, 31, 32, 127>>
Code == << <<195, 169>>, <<230, 188, 162>>, <<240, 159, 152, 128>> >>
Pick(s) == s[RandomElement(1..Len(s))]
RECURSIVE RandomBytes(_), RandomValue(_), RandomSeq(_, _), RandomMembers(_, _), Text(_, _), Numeric(_)
RandomBytes(n) == IF n = 0 THEN <<>> ELSE (IF RandomElement(1..5) = 1 THEN Pick(Code) ELSE <<Pick(Bytes)>>) \o RandomBytes(n - 1)
RandomNumber(a) == LET n == RandomElement(a..1999) IN Number(n \div 2, RandomElement(-4..2), n % 2 = 1)
RandomSeq(n, d) == IF n = 0 THEN <<>> ELSE <<RandomValue(d)>> \o RandomSeq(n - 1, d)
RandomMembers(n, d) == [j \in 1..n |-> [n |-> (IF j = 1 THEN <<>> ELSE <<96 + j>>) \o RandomBytes(RandomElement(0..1) * (j - 1)), v |-> RandomValue(d)]]
RandomValue(d) ==
  LET c == RandomElement(1..(IF d = 0 THEN 6 ELSE 12)) IN
  CASE c = 1 -> Null
    [] c = 2 -> Bool(RandomElement(1..(2 + 0 * d)) = 1)
    [] c \in {3, 4} -> RandomNumber(0 * d)
    [] c \in {5, 6} -> Str(RandomBytes(RandomElement(0..(3 + 0 * d))))
    [] c \in {7, 8, 9} -> Array(RandomSeq(RandomElement(0..3), d - 1))
    [] OTHER -> Object(RandomMembers(RandomElement(0..3), d - 1))
HexOf(n) == <<Hex[(n \div 4096) + 1], Hex[((n \div 256) % 16) + 1], Hex[((n \div 16) % 16) + 1], Hex[(n % 16) + 1]>>
(* Some way to write a byte in a string: in full, or shorter where there is a way. *)
Escape(b) == CASE b = 34 -> <<"\\", "\"">> [] b = 92 -> <<"\\", "\\">> [] b = 47 -> <<"/">> [] b = 8 -> <<"\\", "b">> [] b = 9 -> <<"\\", "t">> [] b = 10 -> <<"\\", "n">> [] b = 12 -> <<"\\", "f">> [] b = 13 -> <<"\\", "r">>
               [] b = 97 -> <<"a">> [] b = 110 -> <<"n">> [] b = 48 -> <<"0">> [] b = 32 -> <<" ">> [] OTHER -> <<"\\", "u">> \o HexOf(b)
Spell(b, r) == IF r = 1 THEN <<"\\", "u">> \o HexOf(b) ELSE Escape(b)
RECURSIVE Spelled(_, _)
Spelled(bs, r) ==
  IF bs = <<>> THEN <<>>
  ELSE IF bs[1] = 195 THEN (IF r = 1 THEN <<"\\", "u", "0", "0", "e", "9">> ELSE <<"U+E9">>) \o Spelled(SubSeq(bs, 3, Len(bs)), RandomElement(1..4))
  ELSE IF bs[1] = 230 THEN (IF r = 1 THEN <<"\\", "u", "6", "F", "2", "2">> ELSE <<"U+6F22">>) \o Spelled(SubSeq(bs, 4, Len(bs)), RandomElement(1..4))
  ELSE IF bs[1] = 240 THEN <<"\\", "u", "D", "8", "3", "d", "\\", "u", "d", "E", "0", "0">> \o Spelled(SubSeq(bs, 5, Len(bs)), RandomElement(1..4))
  ELSE Spell(bs[1], r) \o Spelled(Tail(bs), RandomElement(1..4))
Numeric(n) == IF n < 10 THEN <<Hex[n + 1]>> ELSE Numeric(n \div 10) \o <<Hex[(n % 10) + 1]>>
Gap(r) == CASE r = 1 -> <<" ">> [] r = 2 -> <<"\t">> [] r = 3 -> <<"\n", " ">> [] r = 4 -> <<"\r">> [] OTHER -> <<>>
B(a) == Gap(RandomElement(a..9))
Text(v, a) ==
  CASE v.k = "null" -> <<"n", "u", "l", "l">>
    [] v.k = "boolean" -> IF v.b THEN <<"t", "r", "u", "e">> ELSE <<"f", "a", "l", "s", "e">>
    [] v.k = "number" -> (IF v.neg THEN <<"-">> ELSE <<>>) \o Numeric(v.m) \o (IF v.x = 0 THEN <<>> ELSE IF v.x > 0 THEN <<"e">> \o Numeric(v.x) ELSE <<"E", "-">> \o Numeric(-v.x))
    [] v.k = "string" -> <<"\"">> \o Spelled(v.s, RandomElement(a..4)) \o <<"\"">>
    [] v.k = "array" -> <<"[">> \o B(a) \o Flat([j \in DOMAIN v.vs |-> Text(v.vs[j], a) \o B(a) \o (IF j < Len(v.vs) THEN <<",">> \o B(a) ELSE <<>>)]) \o <<"]">>
    [] v.k = "object" -> <<"{">> \o B(a) \o Flat([j \in DOMAIN v.ms |-> Text(Str(v.ms[j].n), a) \o B(a) \o <<":">> \o B(a) \o Text(v.ms[j].v, a) \o B(a) \o (IF j < Len(v.ms) THEN <<",">> \o B(a) ELSE <<>>)]) \o <<"}">>
Alphabet == <<"[", "]", "{", "}", ",", ":", "\"", "\\", "0", "1", ".", "-", "e", "E", "n", "u", "t", "a", " ", "\n", "U+E9", "+">>
Edited(t, r) ==
  LET p == RandomElement(1..(Len(t) + 1))
      c == <<Pick(Alphabet)>>
  IN CASE r = 1 -> SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t))
       [] r = 2 -> SubSeq(t, 1, p - 1) \o c \o SubSeq(t, p + 1, Len(t))
       [] r = 3 -> SubSeq(t, 1, p - 1) \o c \o SubSeq(t, p, Len(t))
       [] r = 4 -> SubSeq(t, 1, p - 1)
       [] OTHER -> t

-----------------------------------------------------------------------------
Traces == IF Kind = "written" THEN JsonDeserialize(IOEnv.TRACES) ELSE <<>>
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
RECURSIVE Upto(_, _)
Upto(b, n) == IF n = 0 THEN 1 ELSE Power(b, n) + Upto(b, n - 1)
Total == CASE Kind = "pieces" -> Upto(16, 4) [] Kind = "longer" -> Upto(16, 5) [] Kind = "bodies" -> Upto(24, 3) [] Kind = "changes" -> 8960 [] Kind = "numbers" -> 2940 [] Kind = "values" -> 1500 [] Kind = "encode" -> 600 [] Kind = "written" -> Len(Traces)
VARIABLES i, done, case
vars == <<i, done, case>>
Given(t) == [t |-> t, v |-> Parse(t)]
Case(n) ==
  CASE Kind \in {"pieces", "longer"} -> Given(Joined(SeqOf(n, 16), Pieces))
    [] Kind = "bodies" -> Given(Body(SeqOf(n, 24)))
    [] Kind = "changes" -> Given(Changes(n))
    [] Kind = "numbers" -> Given(Composed(n))
    [] Kind = "values" -> LET v == RandomValue(1 + (n % 3))
                              t == B(1 + 0 * n) \o Text(v, 1 + 0 * n) \o B(1 + 0 * n)
                              e == Edited(t, 1 + ((n \div 3) % 8))
                          IN [t |-> e, v |-> Parse(e), w |-> v, same |-> e = t]
    [] Kind = "encode" -> [v |-> RandomValue(n % 4)]
    [] Kind = "written" -> [n |-> n]
Init == i \in {n \in 0..Total - 1 : n % Parts = Part} /\ done = FALSE /\ case = Case(i)
(* What is written of a value reads as the value. *)
Agree == (Kind = "values" /\ case.same) => Same(case.v, case.w)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<i, case>>
        /\ IF Kind = "written" THEN Same(Parse(Traces[i + 1].t), Traces[i + 1].v) => PrintT("@@" \o ToString(i + 1))
           ELSE PrintT("@@" \o ToJson(IF Kind = "encode" THEN case ELSE [t |-> case.t, v |-> case.v]))
Spec == Init /\ [][Next]_vars
=============================================================================
