------------------------------ MODULE Reflect -------------------------------
(* Values of the any type: what they are shown as, and whether two of them are equal, unequal or not comparable. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Kind, Parts, Part

(* Types. *)
T(t) == [t |-> t]
ListOf(t) == [t |-> "list", of |-> t]
MapOf(k, v) == [t |-> "map", kt |-> k, vt |-> v]
Record(n) == [t |-> "record", n |-> n]
Function(n) == [t |-> "fun", n |-> n]
Fields(n) == CASE n = "R" -> <<[f |-> <<"a">>, t |-> T("any")], [f |-> <<"b">>, t |-> T("opt")]>>
               [] n = "S" -> <<>>
               [] n = "W" -> <<[f |-> <<"x">>, t |-> ListOf(T("number"))], [f |-> <<"y", "z">>, t |-> Record("S")], [f |-> <<"w">>, t |-> T("any")]>>
               [] n = "B" -> <<[f |-> <<"b">>, t |-> T("boolean")]>>
(* How types are written. *)
RECURSIVE Names(_)
Names(t) ==
  CASE t.t = "opt" -> {<<"n", "u", "m", "b", "e", "r", " ", "|", " ", "n", "o", "n", "e">>, <<"n", "o", "n", "e", " ", "|", " ", "n", "u", "m", "b", "e", "r">>}
    [] t.t = "any" -> {<<"a", "n", "y">>} [] t.t = "number" -> {<<"n", "u", "m", "b", "e", "r">>} [] t.t = "string" -> {<<"s", "t", "r", "i", "n", "g">>}
    [] t.t = "boolean" -> {<<"b", "o", "o", "l", "e", "a", "n">>} [] t.t = "record" -> {<<t.n>>}
    [] t.t = "list" -> {<<"[">> \o x \o <<"]">> : x \in Names(t.of)}
    [] t.t = "map" -> {<<"{">> \o x \o <<":", " ">> \o y \o <<"}">> : x \in Names(t.kt), y \in Names(t.vt)}

(* Values. Numbers are places in a table: how they are shown, and which of them are equal. *)
Shown == << <<"0">>, <<"1">>, <<"-", "5">>, <<"0", ".", "5">>, <<"N", "a", "N">>, <<"1", "2", "0", "0", "0">> >>
None == [k |-> "none"]
Bool(b) == [k |-> "bool", b |-> b]
Number(n) == [k |-> "num", n |-> n]
Whole(n) == [k |-> "int", n |-> n]
Text(s) == [k |-> "str", s |-> s]
Error(v) == IF v.k = "err" THEN v ELSE [k |-> "err", v |-> v]    \* the error of an error is that error
Fun(n) == [k |-> "fun", n |-> n]
List(t, vs) == [k |-> "list", t |-> t, vs |-> vs]
Map(kt, vt, es, more) == [k |-> "map", kt |-> kt, vt |-> vt, es |-> es, more |-> more]    \* made with entries that are deleted again
Rec(n, vs) == [k |-> "rec", n |-> n, vs |-> vs]

-----------------------------------------------------------------------------
(* Whether values are equal: "t", "f", "n" for not comparable, "?" where parts differ and others are not comparable. *)
Worse(a, b) == IF a = "t" THEN b ELSE IF b = "t" THEN a ELSE IF a = b THEN a ELSE "?"
RECURSIVE All(_), Eq(_, _)
All(rs) == IF rs = <<>> THEN "t" ELSE Worse(rs[1], All(Tail(rs)))
Least(a, b) == IF a < b THEN a ELSE b
InEach(x, y) == All([j \in 1..Least(Len(x), Len(y)) |-> Eq(x[j], y[j])])
At(m, key) == LET s == {j \in DOMAIN m.es : m.es[j].k = key} IN IF s = {} THEN <<>> ELSE <<m.es[CHOOSE j \in s : TRUE].v>>
Eq(a, b) ==
  IF a.k # b.k THEN "f"
  ELSE CASE a.k = "none" -> "t"
         [] a.k = "bool" -> IF a.b = b.b THEN "t" ELSE "f"
         [] a.k = "num" -> IF a.n = b.n /\ Shown[a.n] # <<"N", "a", "N">> THEN "t" ELSE "f"
         [] a.k = "int" -> IF a.n = b.n THEN "t" ELSE "f"
         [] a.k = "str" -> IF a.s = b.s THEN "t" ELSE "f"
         [] a.k = "err" -> Eq(a.v, b.v)
         [] a.k = "fun" -> IF a.n = b.n THEN "n" ELSE "?"
         [] a.k = "list" -> IF a.t # b.t THEN "f" ELSE Worse(InEach(a.vs, b.vs), IF Len(a.vs) = Len(b.vs) THEN "t" ELSE "f")
         [] a.k = "map" -> IF a.kt # b.kt \/ a.vt # b.vt THEN "f"
                           ELSE Worse(All([j \in DOMAIN a.es |-> LET v == At(b, a.es[j].k) IN IF v = <<>> THEN "f" ELSE Eq(a.es[j].v, v[1])]),
                                      IF {a.es[j].k : j \in DOMAIN a.es} = {b.es[j].k : j \in DOMAIN b.es} THEN "t" ELSE "f")
         [] a.k = "rec" -> IF a.n # b.n THEN "f" ELSE InEach(a.vs, b.vs)

(* Where in a text a value that begins at i can end. *)
Starts(t, i, w) == i + Len(w) - 1 <= Len(t) /\ \A j \in DOMAIN w : t[i + j - 1] = w[j]
Word(t, is, w) == {i + Len(w) : i \in {j \in is : Starts(t, j, w)}}
Figures == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Decimal(_)
Decimal(n) == (IF n < 10 THEN <<>> ELSE Decimal(n \div 10)) \o <<Figures[(n % 10) + 1]>>
RECURSIVE Ends(_, _, _), Each(_, _, _, _), Entries(_, _, _, _), Parts_(_, _, _, _, _)
Each(vs, t, is, first) ==
  IF vs = <<>> THEN is
  ELSE LET js == Word(t, is, IF first THEN <<" ">> ELSE <<",", " ">>) IN Each(Tail(vs), t, UNION {Ends(vs[1], t, j) : j \in js}, FALSE)
(* The entries of a map, in any order. *)
Entries(es, t, i, first) ==
  IF es = {} THEN {i}
  ELSE UNION {UNION {Entries(es \ {e}, t, z, FALSE) : z \in UNION {UNION {Ends(e.v, t, x) : x \in Word(t, {y}, <<":", " ">>)} : y \in Ends(e.k, t, j)}}
              : e \in es, j \in Word(t, {i}, IF first THEN <<" ">> ELSE <<",", " ">>)}
Parts_(fs, vs, t, is, first) ==
  IF fs = <<>> THEN is
  ELSE Parts_(Tail(fs), Tail(vs), t, UNION {Ends(vs[1], t, j) : j \in Word(t, is, (IF first THEN <<>> ELSE <<",", " ">>) \o fs[1].f \o <<":", " ">>)}, FALSE)
Ends(v, t, i) ==
  CASE v.k = "none" -> Word(t, {i}, <<"n", "o", "n", "e">>)
    [] v.k = "bool" -> Word(t, {i}, IF v.b THEN <<"t", "r", "u", "e">> ELSE <<"f", "a", "l", "s", "e">>)
    [] v.k = "num" -> Word(t, {i}, Shown[v.n])
    [] v.k = "int" -> Word(t, {i}, Decimal(v.n))
    [] v.k = "str" -> Word(t, {i}, <<"\"">> \o v.s \o <<"\"">>)
    [] v.k = "err" -> Word(t, UNION {Ends(v.v, t, j) : j \in Word(t, {i}, <<"e", "r", "r", "o", "r", "(">>)}, <<")">>)
    [] v.k = "fun" -> Word(t, {i}, <<"<", "f", "u", "n", "c", "t", "i", "o", "n", ">">>)
    [] v.k = "list" -> Word(t, Each(v.vs, t, UNION {Word(t, {i}, <<"[">> \o x) : x \in Names(v.t)}, TRUE), <<"]">>)
    [] v.k = "map" -> Word(t, UNION {Entries({v.es[j] : j \in DOMAIN v.es}, t, x, TRUE) : x \in UNION {Word(t, {i}, <<"{">> \o x \o <<":", " ">> \o y) : x \in Names(v.kt), y \in Names(v.vt)}}, <<"}">>)
    [] v.k = "rec" -> Word(t, Parts_(Fields(v.n), v.vs, t, Word(t, {i}, <<v.n, "{">>), TRUE), <<"}">>)
Shows(v, t) == Len(t) + 1 \in Ends(v, t, 1)

-----------------------------------------------------------------------------
(* Values of a type, at random. *)
Pick(s, a) == s[RandomElement(a..Len(s))]
Letters == <<"a", "b", "\"", " ", ",", "}", "\\", "\n", ")">>
Keys == << <<"a">>, <<"b">>, <<>>, <<"a", "b">>, <<"k">>, <<"l", "m">> >>
Types == <<T("any"), T("number"), T("string"), T("boolean"), T("opt"), Record("R"), Record("S"), ListOf(T("number")), MapOf(T("string"), T("number"))>>
RECURSIVE Of(_, _), Several(_, _, _), Letters_(_), Entries_(_, _, _, _)
Letters_(n) == IF n = 0 THEN <<>> ELSE <<Pick(Letters, 1)>> \o Letters_(n - 1)
Several(n, t, d) == IF n = 0 THEN <<>> ELSE <<Of(t, d)>> \o Several(n - 1, t, d)
Key(t, j) == IF t.t = "string" THEN Text(Keys[j]) ELSE Number(IF j >= 5 THEN 6 ELSE j)
(* Entries of which the keys are the places in a sequence. *)
Entries_(q, kt, vt, d) == [j \in DOMAIN q |-> [k |-> Key(kt, q[j]), v |-> Of(vt, d)]]
Places == << <<>>, <<1>>, <<2, 1>>, <<3>>, <<1, 2, 3>>, <<4, 2>>, <<3, 1, 5>>, <<5, 4>>, <<2>> >>
Record_(n, d) == Rec(n, [j \in DOMAIN Fields(n) |-> Of(Fields(n)[j].t, d)])
Map_(kt, vt, d, a) == LET q == Pick(Places, a)
                          m == Pick(Places, a)
                      IN Map(kt, vt, Entries_(q, kt, vt, d), {Key(kt, m[j]) : j \in DOMAIN m} \ {Key(kt, q[j]) : j \in DOMAIN q})
Of(t, d) ==
  CASE t.t = "number" -> Number(RandomElement(1..(6 + 0 * d)))
    [] t.t = "boolean" -> Bool(RandomElement(1..(2 + 0 * d)) = 1)
    [] t.t = "string" -> Text(Letters_(RandomElement(0..(2 + 0 * d))))
    [] t.t = "opt" -> IF RandomElement(1..(2 + 0 * d)) = 1 THEN None ELSE Number(RandomElement(1..(6 + 0 * d)))
    [] t.t = "record" -> Record_(t.n, IF d = 0 THEN 0 ELSE d - 1)
    [] t.t = "list" -> List(t.of, Several(RandomElement(0..(2 + 0 * d)), t.of, IF d = 0 THEN 0 ELSE d - 1))
    [] t.t = "map" -> Map_(t.kt, t.vt, IF d = 0 THEN 0 ELSE d - 1, 1)
    [] t.t = "any" ->
       LET c == RandomElement(1..(IF d = 0 THEN 7 ELSE 17)) IN
       CASE c = 1 -> None [] c = 2 -> Of(T("boolean"), 0) [] c \in {3, 4} -> Of(T("number"), 0) [] c \in {5, 6} -> Of(T("string"), 0)
         [] c = 7 -> Fun(RandomElement(1..(2 + 0 * d)))
         [] c = 8 -> Error(Of(T("any"), d - 1))
         [] c \in {9, 10, 11} -> LET e == Pick(Types, 1 + 0 * d) IN List(e, Several(RandomElement(0..(3 + 0 * d)), e, d - 1))
         [] c \in {12, 13, 14} -> Map_(T(IF RandomElement(1..(3 + 0 * d)) = 1 THEN "number" ELSE "string"), Pick(Types, 1 + 0 * d), d - 1, 1 + 0 * d)
         [] OTHER -> Record_(Pick(<<"R", "R", "S", "W", "B">>, 1 + 0 * d), d - 1)
(* The same value made in another way, or with a change in one place. *)
Reversed(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
RECURSIVE Remade(_), Changed(_, _)
Remade(v) ==
  CASE v.k = "map" -> Map(v.kt, v.vt, Reversed([j \in DOMAIN v.es |-> [k |-> v.es[j].k, v |-> Remade(v.es[j].v)]]), {})
    [] v.k \in {"list", "rec"} -> [v EXCEPT !.vs = [j \in DOMAIN v.vs |-> Remade(v.vs[j])]]
    [] v.k = "err" -> Error(Remade(v.v))
    [] OTHER -> v
Changed(v, t) ==
  IF t.t = "any" /\ RandomElement(1..(IF v.k = "none" THEN 3 ELSE 4)) = 1 THEN Of(t, 1)
  ELSE CASE v.k = "list" -> IF v.vs = <<>> THEN List(v.t, <<Of(v.t, 0)>>)
                            ELSE IF RandomElement(1..(4 + 0 * Len(v.vs))) = 1 THEN List(v.t, Tail(v.vs))
                            ELSE LET j == RandomElement(DOMAIN v.vs) IN List(v.t, [v.vs EXCEPT ![j] = Changed(@, v.t)])
         [] v.k = "rec" -> IF v.vs = <<>> THEN v ELSE LET j == RandomElement(DOMAIN v.vs) IN Rec(v.n, [v.vs EXCEPT ![j] = Changed(@, Fields(v.n)[j].t)])
         [] v.k = "map" -> IF v.es = <<>> THEN Map(v.kt, v.vt, <<[k |-> Key(v.kt, 1), v |-> Of(v.vt, 0)]>>, {})
                           ELSE IF RandomElement(1..(4 + 0 * Len(v.es))) = 1 THEN Map(v.kt, v.vt, Tail(v.es), {v.es[1].k})
                           ELSE LET j == RandomElement(DOMAIN v.es) IN Map(v.kt, v.vt, [v.es EXCEPT ![j] = [k |-> @.k, v |-> Changed(@.v, v.vt)]], {})
         [] v.k = "err" -> Error(Changed(v.v, T("any")))
         [] v.k \in {"none", "bool", "str", "fun"} \/ v.k = "num" -> Of(IF t.t # "any" THEN t ELSE T(CASE v.k = "none" -> "any" [] v.k = "bool" -> "boolean" [] v.k = "str" -> "string" [] v.k = "fun" -> "any" [] v.k = "num" -> "number"), 0)
(* Large maps with number keys, which are made in different orders and from which other keys were deleted. *)
RECURSIVE Keys_(_, _), Without(_, _)
Keys_(n, ks) == IF n = 0 THEN ks ELSE LET x == RandomElement(0..(600 + 0 * n)) IN Keys_(n - 1, IF \E j \in DOMAIN ks : ks[j] = x THEN ks ELSE Append(ks, x))
Without(s, x) == IF s = <<>> THEN <<>> ELSE (IF s[1] = x THEN <<>> ELSE <<s[1]>>) \o Without(Tail(s), x)
Large(ks, more, x) == Map(T("number"), T("number"), [j \in DOMAIN ks |-> [k |-> Whole(ks[j]), v |-> Whole(IF ks[j] = x THEN x + 1 ELSE ks[j])]], {Whole(y) : y \in {more[j] : j \in DOMAIN more} \ {ks[j] : j \in DOMAIN ks}})
LargePair(n) ==
  LET ks == Keys_(RandomElement(1..(40 + 0 * n)), <<>>)
      some == Keys_(RandomElement(0..(20 + 0 * n)), <<>>)
      more == Keys_(RandomElement(0..(20 + 0 * n)), <<>>)
      x == ks[RandomElement(DOMAIN ks)]
      c == RandomElement(1..4)
      v == Large(ks, some, -1)
      w == CASE c = 1 -> Large(Reversed(Without(ks, x)), more \o <<x>>, -1) [] c = 2 -> Large(Reversed(ks), more, x) [] OTHER -> Large(Reversed(ks), more, -1)
  IN [v |-> v, w |-> w, e |-> Eq(v, w)]

Total == CASE Kind = "pairs" -> 600 [] Kind = "shown" -> Len(JsonDeserialize(IOEnv.TRACES))
Traces == IF Kind = "shown" THEN JsonDeserialize(IOEnv.TRACES) ELSE <<>>
VARIABLES i, done, case
vars == <<i, done, case>>
Case(n) ==
  IF Kind = "shown" THEN [n |-> n]
  ELSE IF n % 12 = 11 THEN LargePair(n)
  ELSE LET v == Of(T("any"), 1 + (n % 3))
           w == CASE n % 5 = 0 -> Of(T("any"), 1 + 0 * n) [] n % 5 = 1 -> Remade(v) [] OTHER -> Changed(v, T("any"))
       IN [v |-> v, w |-> w, e |-> Eq(v, w)]
Init == i \in {n \in 0..Total - 1 : n % Parts = Part} /\ done = FALSE /\ case = Case(i)
(* Comparison does not care for the order, and a value that can be compared with itself is equal to itself however it is made. *)
Sane == Kind = "pairs" => Eq(case.w, case.v) = case.e /\ Eq(Remade(case.v), case.v) = Eq(case.v, case.v)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<i, case>>
        /\ IF Kind = "pairs" THEN PrintT("@@" \o ToJson(case))
           ELSE Shows(Traces[i + 1].v, Traces[i + 1].t) => PrintT("@@" \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
=============================================================================
