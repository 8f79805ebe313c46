-------------------------------- MODULE Regex -------------------------------
(* Regular expressions: which texts are patterns, whether one matches in a string, and what its groups match then:
   the leftmost match, alternatives and repetitions tried in their order of preference. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Parts, Part

RECURSIVE SeqOf(_, _), Flat(_)
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

(* Patterns. *)
Eps == [k |-> "eps"]
Chr(c) == [k |-> "chr", c |-> c]
AnyChar == [k |-> "any"]
SetOf(cs, neg) == [k |-> "set", cs |-> cs, neg |-> neg]
Cat(a, b) == [k |-> "cat", a |-> a, b |-> b]
Alt(a, b) == [k |-> "alt", a |-> a, b |-> b]
Rep(a, min, max, lazy) == [k |-> "rep", a |-> a, min |-> min, max |-> max, lazy |-> lazy]   \* max < 0: without bound
Grp(n, a) == [k |-> "grp", n |-> n, a |-> a]
Edge(w) == [k |-> w]      \* "bol", "eol": the edges of the string

-----------------------------------------------------------------------------
(* Reading patterns: the pattern, the place after it, the number of groups opened so far; or that the text is none,
   or that it uses what is not described here. *)
Bad == [st |-> "bad"]
Open == [st |-> "open"]
Good(r, i, n) == [st |-> "ok", r |-> r, i |-> i, n |-> n]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE "end"
Meta == {"(", ")", "*", "+", "?", "|", "[", "]", "\\", ".", "^", "$", "{", "}"}
Digits == [d \in {"0", "1", "2", "3"} |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3]
RECURSIVE Alternatives(_, _, _), Sequence(_, _, _, _), Repeated(_, _), Atom(_, _, _), Class(_, _, _)
Alternatives(t, i, n) ==
  LET s == Sequence(t, i, n, Eps) IN
  IF s.st # "ok" \/ At(t, s.i) # "|" THEN s
  ELSE LET z == Alternatives(t, s.i + 1, s.n) IN IF z.st # "ok" THEN z ELSE Good(Alt(s.r, z.r), z.i, z.n)
Sequence(t, i, n, r) ==
  IF At(t, i) \in {"end", "|", ")"} THEN Good(r, i, n)
  ELSE LET a == Atom(t, i, n) IN
       IF a.st # "ok" THEN a
       ELSE LET b == Repeated(t, a) IN
            IF b.st # "ok" THEN b ELSE Sequence(t, b.i, b.n, IF r.k = "eps" THEN b.r ELSE Cat(r, b.r))
Repeated(t, a) ==
  LET c == At(t, a.i)
      lazy(j) == At(t, j) = "?"
      go(j, min, max) == IF a.r.k \in {"bol", "eol"} THEN Open ELSE Repeated(t, Good(Rep(a.r, min, max, lazy(j)), IF lazy(j) THEN j + 1 ELSE j, a.n))
      counted == At(t, a.i + 1) \in DOMAIN Digits
      d == IF counted THEN Digits[t[a.i + 1]] ELSE 0
  IN CASE c = "*" -> go(a.i + 1, 0, -1)
       [] c = "+" -> go(a.i + 1, 1, -1)
       [] c = "?" -> go(a.i + 1, 0, 1)
       [] c = "{" -> IF ~counted THEN Open
                     ELSE IF At(t, a.i + 2) = "}" THEN go(a.i + 3, d, d)
                     ELSE IF At(t, a.i + 2) # "," THEN Open
                     ELSE IF At(t, a.i + 3) = "}" THEN go(a.i + 4, d, -1)
                     ELSE IF At(t, a.i + 3) \notin DOMAIN Digits \/ At(t, a.i + 4) # "}" THEN Open
                     ELSE IF Digits[t[a.i + 3]] < d THEN Bad
                     ELSE go(a.i + 5, d, Digits[t[a.i + 3]])
       [] OTHER -> a
Atom(t, i, n) ==
  LET c == At(t, i)
      d == At(t, i + 1)
      plain == c = "(" /\ d = "?" /\ At(t, i + 2) = ":"
  IN CASE c \in {"*", "+", "?"} -> Bad
       [] c \in {"{", "}"} -> Open
       [] c = "." -> Good(AnyChar, i + 1, n)
       [] c = "^" -> Good(Edge("bol"), i + 1, n)
       [] c = "$" -> Good(Edge("eol"), i + 1, n)
       [] c = "\\" -> IF d = "end" THEN Bad ELSE IF d \in Meta THEN Good(Chr(d), i + 2, n) ELSE Open
       [] c = "[" -> LET neg == d = "^"
                         j == IF neg THEN i + 2 ELSE i + 1
                         r == IF At(t, j) = "]" THEN Class(t, j + 1, {"]"}) ELSE Class(t, j, {})
                     IN IF r.st # "ok" THEN r ELSE Good(SetOf(r.r, neg), r.i, n)
       [] c = "(" -> IF d = "?" /\ ~plain THEN Open
                     ELSE LET z == IF plain THEN Alternatives(t, i + 3, n) ELSE Alternatives(t, i + 1, n + 1) IN
                          IF z.st # "ok" THEN z ELSE IF At(t, z.i) # ")" THEN Bad
                          ELSE Good(IF plain THEN (IF z.r.k \in {"eps", "bol", "eol"} THEN Cat(z.r, Eps) ELSE z.r) ELSE Grp(n + 1, z.r), z.i + 1, z.n)
       [] OTHER -> Good(Chr(c), i + 1, n)
(* The characters of a class from i on. *)
Class(t, i, cs) ==
  LET c == At(t, i)
      d == At(t, i + 1)
      e == At(t, i + 2)
      order == <<"a", "b", "c">>
      place(x) == IF \E j \in DOMAIN order : order[j] = x THEN CHOOSE j \in DOMAIN order : order[j] = x ELSE 0
  IN CASE c = "end" -> Bad
       [] c = "]" -> Good(cs, i + 1, 0)
       [] c = "[" -> Open
       [] c = "\\" -> IF d = "end" THEN Bad ELSE IF d \in Meta THEN Class(t, i + 2, cs \cup {d}) ELSE Open
       [] d = "-" -> IF place(c) = 0 \/ place(e) = 0 THEN Open ELSE IF place(e) < place(c) THEN Bad ELSE Class(t, i + 3, cs \cup {order[j] : j \in place(c)..place(e)})
       [] c = "-" -> Open
       [] OTHER -> Class(t, i + 1, cs \cup {c})
Parse(t) == LET z == Alternatives(t, 1, 0) IN IF z.st = "ok" /\ z.i <= Len(t) THEN Bad ELSE z   \* a closing parenthesis too many

-----------------------------------------------------------------------------
(* Matching. *)
Takes(r, c) == CASE r.k = "chr" -> c = r.c [] r.k = "any" -> c # "\n" [] r.k = "set" -> (c \in r.cs) # r.neg
(* All places where a match that begins at i can end. *)
RECURSIVE Ends(_, _, _), Closure(_, _, _), Times(_, _, _, _), Nullable(_), Knotty(_), First(_, _, _, _), Iterate(_, _, _, _, _, _)
Closure(r, s, is) == LET js == is \cup UNION {Ends(r, s, i) : i \in is} IN IF js = is THEN is ELSE Closure(r, s, js)
Times(r, s, is, n) == IF n = 0 THEN is ELSE Times(r, s, UNION {Ends(r, s, i) : i \in is}, n - 1)
Ends(r, s, i) ==
  CASE r.k \in {"chr", "any", "set"} -> IF i <= Len(s) /\ Takes(r, s[i]) THEN {i + 1} ELSE {}
    [] r.k = "eps" -> {i}
    [] r.k = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] r.k = "eol" -> IF i = Len(s) + 1 THEN {i} ELSE {}
    [] r.k = "grp" -> Ends(r.a, s, i)
    [] r.k = "cat" -> UNION {Ends(r.b, s, j) : j \in Ends(r.a, s, i)}
    [] r.k = "alt" -> Ends(r.a, s, i) \cup Ends(r.b, s, i)
    [] r.k = "rep" -> IF r.max < 0 THEN Closure(r.a, s, Times(r.a, s, {i}, r.min)) ELSE UNION {Times(r.a, s, {i}, n) : n \in r.min..r.max}
Matches(r, s) == \E i \in 1..(Len(s) + 1) : Ends(r, s, i) # {}
Nullable(r) == CASE r.k \in {"chr", "any", "set"} -> FALSE [] r.k \in {"eps", "bol", "eol"} -> TRUE [] r.k = "grp" -> Nullable(r.a) [] r.k = "cat" -> Nullable(r.a) /\ Nullable(r.b) [] r.k = "alt" -> Nullable(r.a) \/ Nullable(r.b)
                 [] r.k = "rep" -> r.min = 0 \/ Nullable(r.a)
(* Repetitions of what can be empty: which groups they leave is not described here. *)
Knotty(r) == CASE r.k \in {"chr", "any", "set", "eps", "bol", "eol"} -> FALSE [] r.k = "grp" -> Knotty(r.a) [] r.k \in {"cat", "alt"} -> Knotty(r.a) \/ Knotty(r.b) [] r.k = "rep" -> Nullable(r.a) \/ Knotty(r.a)
(* The ends of matches from i on with their groups, in order of preference. *)
First(r, s, i, g) ==
  CASE r.k \in {"chr", "any", "set", "eps", "bol", "eol"} -> LET e == Ends(r, s, i) IN IF e = {} THEN <<>> ELSE <<[i |-> CHOOSE j \in e : TRUE, g |-> g]>>
    [] r.k = "grp" -> LET f == First(r.a, s, i, g) IN [n \in DOMAIN f |-> [i |-> f[n].i, g |-> [f[n].g EXCEPT ![r.n] = SubSeq(s, i, f[n].i - 1)]]]
    [] r.k = "cat" -> LET f == First(r.a, s, i, g) IN Flat([n \in DOMAIN f |-> First(r.b, s, f[n].i, f[n].g)])
    [] r.k = "alt" -> First(r.a, s, i, g) \o First(r.b, s, i, g)
    [] r.k = "rep" -> Iterate(r, s, i, g, r.min, r.max)
Iterate(r, s, i, g, min, max) ==
  LET f == IF max = 0 THEN <<>> ELSE First(r.a, s, i, g)
      more == Flat([n \in DOMAIN f |-> Iterate(r, s, f[n].i, f[n].g, IF min > 0 THEN min - 1 ELSE 0, IF max > 0 THEN max - 1 ELSE max)])
      stop == IF min > 0 THEN <<>> ELSE <<[i |-> i, g |-> g]>>
  IN IF r.lazy THEN stop \o more ELSE more \o stop
NoGroup == <<"unmatched">>
Groups(p, s) ==
  LET at(i) == First(p.r, s, i, [n \in 1..p.n |-> NoGroup])
      is == {i \in 1..(Len(s) + 1) : Ends(p.r, s, i) # {}}
  IN IF is = {} THEN <<>>
     ELSE LET i == CHOOSE j \in is : \A k \in is : j <= k
              f == at(i)[1]
          IN <<SubSeq(s, i, f.i - 1)>> \o f.g

-----------------------------------------------------------------------------
Alphabet == <<"a", "b", "(", ")", "*", "?", "|", "[", "]", "^", ".", "\\", "$">>
Strings == [j \in 1..15 |-> LET q == SeqOf(j - 1, 2) IN [m \in 1..Len(q) |-> <<"a", "b">>[q[m] + 1]]]
           \o << <<"\n">>, <<"a", "\n", "b">>, <<"(">>, <<"\\">>, <<"a", "b", "a", "b">>, <<"b", "b", "a", "a">>, <<"U+E9">>, <<"b", "U+E9", "a">>, <<"]">>, <<"a", "c", "b", "a", "a">>, <<"^", "a">> >>
(* Patterns at random, as texts. *)
Pick(s, a) == s[RandomElement(a..Len(s))]
Atoms == << <<"a">>, <<"b">>, <<"a">>, <<"b">>, <<".">>, <<"[", "a", "b", "]">>, <<"[", "^", "a", "]">>, <<"[", "a", "-", "c", "]">>, <<"\\", "(">>, <<"U+E9">>, <<"^">>, <<"$">>, <<"c">>, <<"[", "^", "b", "-", "c", "]">> >>
Operators == << <<"*">>, <<"+">>, <<"?">>, <<"*", "?">>, <<"+", "?">>, <<"?", "?">>, <<"{", "2", "}">>, <<"{", "1", ",", "2", "}">>, <<"{", "2", ",", "}">>, <<"{", "0", ",", "2", "}", "?">> >>
RECURSIVE RandomPattern(_)
RandomPattern(d) ==
  LET c == RandomElement(1..(IF d = 0 THEN 1 ELSE 12)) IN
  CASE c \in {1, 2} -> Pick(Atoms, 1)
    [] c \in {3, 4, 5} -> RandomPattern(d - 1) \o RandomPattern(d - 1)
    [] c = 6 -> RandomPattern(d - 1) \o RandomPattern(d - 1) \o RandomPattern(d - 1)
    [] c = 7 -> <<"(", "?", ":">> \o RandomPattern(d - 1) \o <<"|">> \o RandomPattern(d - 1) \o <<")">>
    [] c \in {8, 9} -> <<"(">> \o RandomPattern(d - 1) \o <<")">>
    [] c = 10 -> <<"(">> \o RandomPattern(d - 1) \o <<"|">> \o RandomPattern(d - 1) \o <<")">>
    [] c = 11 -> <<"(">> \o RandomPattern(d - 1) \o <<")">> \o Pick(Operators, 1)
    [] OTHER -> <<"(", "?", ":">> \o RandomPattern(d - 1) \o <<")">> \o Pick(Operators, 1)
RECURSIVE Upto(_, _)
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
Upto(b, n) == IF n = 0 THEN 1 ELSE Power(b, n) + Upto(b, n - 1)
Total == CASE Kind = "texts" -> Upto(13, 4) [] Kind = "longer" -> Upto(13, 5) [] Kind = "random" -> 1500 [] Kind = "more" -> 12000
VARIABLES i, done, text
vars == <<i, done, text>>
Case(t) ==
  LET p == Parse(t) IN
  [t |-> t, st |-> p.st] @@
  (IF p.st # "ok" THEN [n |-> 0]
   ELSE [n |-> p.n, ms |-> [j \in DOMAIN Strings |-> Matches(p.r, Strings[j])]] @@ (IF Knotty(p.r) THEN <<>> ELSE [gs |-> [j \in DOMAIN Strings |-> Groups(p, Strings[j])]]))
Init == i \in {n \in 0..Total - 1 : n % Parts = Part} /\ done = FALSE
        /\ text = (IF Kind \in {"texts", "longer"} THEN LET q == SeqOf(i, 13) IN [j \in 1..Len(q) |-> Alphabet[q[j] + 1]] ELSE RandomPattern(1 + (i % 4)))
(* Preferring some matches over others neither finds more nor fewer. *)
Agree == LET p == Parse(text) IN
  (p.st = "ok" /\ ~Knotty(p.r)) => \A j \in {2, 5, 9, 20} : \A a \in 1..(Len(Strings[j]) + 1) : LET f == First(p.r, Strings[j], a, [n \in 1..p.n |-> NoGroup]) IN {f[n].i : n \in DOMAIN f} = Ends(p.r, Strings[j], a)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<i, text>> /\ PrintT("@@" \o ToJson(Case(text)))
Spec == Init /\ [][Next]_vars
ASSUME PrintT("@@" \o ToJson([strings |-> Strings]))
=============================================================================
