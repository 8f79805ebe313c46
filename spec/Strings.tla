------------------------------- MODULE Strings -------------------------------
(* Strings as sequences of bytes, and of characters where they are valid UTF-8. Indices are halves: an index
   i stands for i/2, and only its whole part counts; MAXI and -MAXI stand for the infinite ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Part, Parts

MAXI == 1000000
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Flat(_), SeqOf(_, _)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>

-----------------------------------------------------------------------------
(* UTF-8, after RFC 3629: no overlong forms, no surrogates, nothing above 10FFFF. *)
In(b, lo, hi) == lo <= b /\ b <= hi
Cont(s, i) == i <= Len(s) /\ In(s[i], 128, 191)
(* Number of bytes of the character at i, or 0. *)
Width(s, i) ==
  LET b == s[i]
      second(lo, hi) == i + 1 <= Len(s) /\ In(s[i + 1], lo, hi)
  IN CASE b < 128 -> 1
       [] In(b, 194, 223) -> IF Cont(s, i + 1) THEN 2 ELSE 0
       [] b = 224 -> IF second(160, 191) /\ Cont(s, i + 2) THEN 3 ELSE 0
       [] In(b, 225, 236) \/ In(b, 238, 239) -> IF Cont(s, i + 1) /\ Cont(s, i + 2) THEN 3 ELSE 0
       [] b = 237 -> IF second(128, 159) /\ Cont(s, i + 2) THEN 3 ELSE 0
       [] b = 240 -> IF second(144, 191) /\ Cont(s, i + 2) /\ Cont(s, i + 3) THEN 4 ELSE 0
       [] In(b, 241, 243) -> IF Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3) THEN 4 ELSE 0
       [] b = 244 -> IF second(128, 143) /\ Cont(s, i + 2) /\ Cont(s, i + 3) THEN 4 ELSE 0
       [] OTHER -> 0
RECURSIVE Chars(_, _)
(* The characters from i on, each its bytes; <<0>> at the end if they are ill-formed (0 is no sequence of bytes). *)
Chars(s, i) == IF i > Len(s) THEN <<>>
               ELSE LET w == Width(s, i) IN IF w = 0 THEN <<<<>>>> ELSE <<SubSeq(s, i, i + w - 1)>> \o Chars(s, i + w)
Valid(s) == LET c == Chars(s, 1) IN c = <<>> \/ c[Len(c)] # <<>>

CodePoint(c) ==
  CASE Len(c) = 1 -> c[1] [] Len(c) = 2 -> (c[1] % 32) * 64 + (c[2] % 64) [] Len(c) = 3 -> (c[1] % 16) * 4096 + (c[2] % 64) * 64 + (c[3] % 64)
    [] Len(c) = 4 -> (c[1] % 8) * 262144 + (c[2] % 64) * 4096 + (c[3] % 64) * 64 + (c[4] % 64)
Encoded(n) ==
  CASE n < 128 -> <<n>> [] In(n, 128, 2047) -> <<192 + n \div 64, 128 + (n % 64)>>
    [] In(n, 2048, 65535) -> <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
    [] OTHER -> <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
Scalar(n) == In(n, 0, 55295) \/ In(n, 57344, 1114111)
White(c) == LET n == CodePoint(c) IN In(n, 9, 13) \/ n \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ In(n, 8192, 8202)
Lower(c) == LET n == CodePoint(c) IN Encoded(IF In(n, 65, 90) \/ In(n, 192, 214) \/ In(n, 216, 222) \/ In(n, 913, 929) THEN n + 32 ELSE IF In(n, 1040, 1071) THEN n + 32 ELSE n)
Upper(c) == LET n == CodePoint(c) IN IF n = 223 THEN <<83, 83>> ELSE Encoded(IF In(n, 97, 122) \/ In(n, 224, 246) \/ In(n, 248, 254) \/ In(n, 945, 961) THEN n - 32 ELSE IF In(n, 1072, 1103) THEN n - 32 ELSE n)

-----------------------------------------------------------------------------
(* Operations on sequences s and patterns p, of bytes or characters. *)
At(s, p, i) == i + Len(p) - 1 <= Len(s) /\ \A j \in 1..Len(p) : s[i + j - 1] = p[j]
Places(s, p) == {i \in 1..Len(s) + 1 : At(s, p, i)}
First(s, p) == LET is == Places(s, p) IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Split(_, _), StripStart(_, _), StripEnd(_, _), TrimS(_), TrimE(_)
Split(s, p) == LET i == First(s, p) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + Len(p)), p)
StripStart(s, p) == IF p # <<>> /\ At(s, p, 1) THEN StripStart(From(s, Len(p) + 1), p) ELSE s
Ends(s, p) == Len(p) <= Len(s) /\ At(s, p, Len(s) - Len(p) + 1)
StripEnd(s, p) == IF p # <<>> /\ Ends(s, p) THEN StripEnd(SubSeq(s, 1, Len(s) - Len(p)), p) ELSE s
TrimS(s) == IF s # <<>> /\ White(s[1]) THEN TrimS(Tail(s)) ELSE s
TrimE(s) == IF s # <<>> /\ White(s[Len(s)]) THEN TrimE(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
(* Elements from the one-based index a to b, in halves. *)
Whole(h) == h \div 2
Slice(s, a, b) == LET from == Max2(Whole(a), 1)
                      to == Min2(Whole(b), Len(s))
                  IN IF from > to THEN <<>> ELSE SubSeq(s, from, to)

-----------------------------------------------------------------------------
Unary(s) ==
  LET c == Chars(s, 1)
      v == Valid(s)
      g(x, y) == IF v THEN x ELSE y
      map(f(_)) == Flat([i \in 1..Len(c) |-> f(c[i])])
  IN << [f |-> "Utf8'Length", a |-> <<>>, v |-> IF v THEN [n |-> Len(c)] ELSE [nan |-> 0]],
        [f |-> "Byte'Length", a |-> <<>>, v |-> [n |-> Len(s)]],
        [f |-> "Utf8'Characters", a |-> <<>>, v |-> [l |-> g(c, <<>>)]],
        [f |-> "Utf8'Trim", a |-> <<>>, v |-> [s |-> IF v THEN Flat(TrimE(TrimS(c))) ELSE s]],
        [f |-> "Utf8'TrimStart", a |-> <<>>, v |-> [s |-> IF v THEN Flat(TrimS(c)) ELSE s]],
        [f |-> "Utf8'TrimEnd", a |-> <<>>, v |-> [s |-> IF v THEN Flat(TrimE(c)) ELSE s]],
        [f |-> "Utf8'ToLowercase", a |-> <<>>, v |-> [s |-> IF v THEN map(Lower) ELSE s]],
        [f |-> "Utf8'ToUppercase", a |-> <<>>, v |-> [s |-> IF v THEN map(Upper) ELSE s]],
        [f |-> "Character'ToCodePoint", a |-> <<>>, v |-> IF v /\ c # <<>> THEN [n |-> CodePoint(c[1])] ELSE [nan |-> 0]] >>

Binary(s, p) ==
  LET c == Chars(s, 1)
      q == Chars(p, 1)
      v == Valid(s) /\ Valid(p)
      is == Places(c, q)
      b(x) == [b |-> v /\ x]
      f(name, r) == [f |-> name, a |-> <<p>>, v |-> r]
  IN << f("Utf8'Contains", b(is # {})),
        f("Utf8'Find", IF v /\ is # {} THEN [n |-> First(c, q)] ELSE [z |-> 0]),
        f("Utf8'StartsWith", b(At(c, q, 1))),
        f("Utf8'EndsWith", b(Ends(c, q))),
        f("String'StartsWith", [b |-> At(s, p, 1)]),
        f("Utf8'TrimStartMatches", [s |-> IF v THEN Flat(StripStart(c, q)) ELSE s]),
        f("Utf8'TrimEndMatches", [s |-> IF v THEN Flat(StripEnd(c, q)) ELSE s]),
        f("Utf8'TrimMatches", [s |-> IF v THEN Flat(StripEnd(StripStart(c, q), q)) ELSE s]),
        [f |-> "View'StartsWith", a |-> <<p>>, v |-> [b |-> At(s, p, 1)]] >>
     \* Where a pattern without characters is found is left open.
     \o IF p = <<>> THEN <<>>
        ELSE << f("Utf8'Split", [l |-> IF v THEN [i \in 1..Len(Split(c, q)) |-> Flat(Split(c, q)[i])] ELSE <<s>>]) >>
             \o [i \in 1..4 |-> LET r == <<<<>>, <<97>>, <<195, 169, 98>>, <<255>>>>[i] IN
                                [f |-> "Utf8'Replace", a |-> <<p, r>>, v |-> [s |-> IF v /\ Valid(r) THEN Join([j \in 1..Len(Split(c, q)) |-> Flat(Split(c, q)[j])], r) ELSE s]]]

Indices == <<-MAXI, -4, -1, 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 20, MAXI>>
Slices(s) ==
  LET c == Chars(s, 1)
      all == [i \in 1..Len(Indices) * Len(Indices) |-> <<Indices[((i - 1) % Len(Indices)) + 1], Indices[((i - 1) \div Len(Indices)) + 1]>>]
  IN Flat([i \in 1..Len(all) |->
       << [f |-> "Utf8'Slice", h |-> all[i], v |-> [s |-> IF Valid(s) THEN Flat(Slice(c, all[i][1], all[i][2])) ELSE <<>>]],
          [f |-> "Byte'Slice", h |-> all[i], v |-> [s |-> Slice(s, all[i][1], all[i][2])]] >>])

-----------------------------------------------------------------------------
(* Views: the part of a string from a place to another. Sequences of slices and seeks, each of which gives a
   part of the last view. *)
Steps == <<<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<2, MAXI>>, <<0, 2>>, <<-1, 1>>, <<3, 1>>, <<1, 0>>, <<1, -5>>, <<2, -MAXI>>, <<-MAXI, MAXI>>, <<5, 9>>, <<MAXI, MAXI>>>>
Seeks == <<0, 1, 2, 9, -1>>
(* A view: the bytes before it, and its own. *)
Narrow(v, a, b) ==
  LET from == Min2(Max2(a, 1), Len(v.s) + 1)
      to == Max2(Min2(b, Len(v.s)), 0)
  IN [o |-> v.o + Min2(from, to + 1) - 1, s |-> SubSeq(v.s, from, to)]
StepView(v, k) == IF k < Len(Steps) THEN Narrow(v, Steps[k + 1][1], Steps[k + 1][2]) ELSE Narrow(v, Seeks[k - Len(Steps) + 1] + 1, MAXI)
RECURSIVE Walk(_, _)
Walk(v, ks) == IF ks = <<>> THEN v ELSE Walk(StepView(v, ks[1]), Tail(ks))

-----------------------------------------------------------------------------
(* What is enumerated. *)
Few == <<<<97>>, <<98>>, <<195, 169>>>>
Many == <<<<97>>, <<65>>, <<32>>, <<10>>, <<195, 169>>, <<195, 137>>, <<195, 159>>, <<226, 130, 172>>, <<240, 159, 152, 132>>, <<227, 128, 128>>, <<194, 133>>, <<226, 128, 139>>, <<208, 175>>,
          <<255>>, <<195>>, <<169>>, <<224, 128, 128>>, <<237, 160, 128>>, <<244, 144, 128, 128>>, <<240, 159>>, <<0>>, <<193, 129>>>>
Mixed == <<<<97>>, <<195, 169>>, <<240, 159, 152, 132>>, <<255>>>>
Of(units, i) == LET q == SeqOf(i, Len(units)) IN Flat([j \in 1..Len(q) |-> units[q[j] + 1]])
CountOf(m, n) == CASE n = 0 -> 1 [] n = 1 -> 1 + m [] n = 2 -> 1 + m + m * m [] n = 3 -> 1 + m + m * m + m * m * m [] n = 4 -> 1 + m + m * m + m * m * m + m * m * m * m

Total == CASE Kind = "few" -> CountOf(3, 4) [] Kind = "many" -> CountOf(Len(Many), 2) [] Kind = "slice" -> CountOf(4, 3) [] Kind = "join" -> CountOf(5, 3)
           [] Kind = "view" -> 7
           [] Kind = "point" -> 1

VARIABLE i, done
vars == <<i, done>>
Init == i \in {n \in 0..Total - 1 : n % Parts = Part} /\ done = FALSE

JoinParts == <<<<>>, <<97>>, <<195, 169>>, <<97, 98>>, <<255>>>>
Points == {0, 1, 9, 97, 127, 128, 255, 2047, 2048, 55295, 55296, 57343, 57344, 65533, 65535, 65536, 1114111, 1114112, 2000000, 2097217, 16777281, 2000000000, -1, -2, -97, -1114111}
Viewed == <<<<>>, <<97>>, <<97, 98>>, <<97, 98, 99>>, <<97, 195, 169, 98>>, <<97, 97, 98, 97, 97>>, <<104, 101, 108, 108, 111, 255>>>>

Case ==
  CASE Kind = "few" -> LET s == Of(Few, i) IN [s |-> s, ops |-> Unary(s) \o Flat([j \in 1..CountOf(3, 2) |-> Binary(s, Of(Few, j - 1))])]
    [] Kind = "many" -> LET s == Of(Many, i) IN [s |-> s, ops |-> Unary(s) \o Flat([j \in 1..CountOf(Len(Many), 1) |-> Binary(s, Of(Many, j - 1))])]
    [] Kind = "slice" -> LET s == Of(Mixed, i) IN [s |-> s, ops |-> Slices(s)]
    [] Kind = "join" -> LET q == SeqOf(i, 5)
                            l == [j \in 1..Len(q) |-> JoinParts[q[j] + 1]]
                        IN [l |-> l, ops |-> <<[f |-> "String'Concatenate", a |-> <<>>, v |-> [s |-> Flat(l)]]>> \o
                                             [j \in 1..Len(JoinParts) |-> [f |-> "String'Join", a |-> <<JoinParts[j]>>, v |-> [s |-> Join(l, JoinParts[j])]]]]
    [] Kind = "view" -> LET s == Viewed[i + 1]
                            n == Len(Steps) + Len(Seeks)
                        IN [s |-> s, walks |-> [j \in 1..CountOf(n, 2) |->
                             LET ks == SeqOf(j - 1, n)
                                 v == Walk([o |-> 0, s |-> s], ks)
                             IN [ks |-> [m \in 1..Len(ks) |-> IF ks[m] < Len(Steps) THEN Steps[ks[m] + 1] ELSE <<Seeks[ks[m] - Len(Steps) + 1]>>],
                                 v |-> v.s, o |-> v.o]]]
    [] Kind = "point" -> [points |-> {[n |-> p, v |-> IF Scalar(p) THEN Encoded(p) ELSE <<>>] : p \in Points}]

(* The specification is consistent with itself: what is split is joined again, decoding undoes encoding. *)
Consistent ==
  CASE Kind = "few" -> LET s == Chars(Of(Few, i), 1) IN \A j \in 2..CountOf(3, 2) : LET p == Chars(Of(Few, j - 1), 1) IN Join(Split(s, p), p) = s
    [] Kind = "point" -> \A p \in Points : Scalar(p) => Valid(Encoded(p)) /\ CodePoint(Encoded(p)) = p
    [] OTHER -> TRUE
Next == ~done /\ PrintT("@@" \o ToJson(Case)) /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_vars
=============================================================================
