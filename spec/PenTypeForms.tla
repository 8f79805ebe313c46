---------------------------- MODULE PenTypeForms -----------------------------
(* Every form of expression at operands of many types, and whether modules of it are well typed. *)
EXTENDS PenTypes, Json

CONSTANTS Families, Step, Offset

NZ == U(<<N, Z>>)
NE == U(<<N, E>>)
NSZ == U(<<S, N, Z>>)
P(x, t) == [x |-> x, t |-> t]
Aliases == <<P("num", N), P("opt", NZ), P("opts", L(Alias("opt"))), P("rr", R("r"))>>
Records == <<[x |-> "r", fs |-> <<P("a", N), P("b", U(<<S, Z>>))>>], [x |-> "p", fs |-> <<P("r", R("r")), P("q", L(N))>>],
             [x |-> "h", fs |-> <<P("f", F(<<>>, N))>>], [x |-> "v", fs |-> <<P("v", U(<<R("v"), Z>>))>>], [x |-> "e", fs |-> <<>>]>>

Types == <<N, B, S, Z, E, A, L(N), L(S), L(NZ), L(A), Alias("opts"), L(L(N)), M(S, N), M(N, N), M(S, A), M(NZ, L(N)), F(<<>>, N), F(<<N>>, N), F(<<NZ>>, N), F(<<>>, NZ), F(<<N, S>>, S),
           R("r"), R("p"), R("h"), R("v"), R("e"), Alias("num"), Alias("opt"), Alias("rr"), NE, NSZ, U(<<Z, N>>), U(<<L(N), Z>>), U(<<R("r"), R("p"), Z>>), U(<<Alias("opt"), S>>), U(<<N, A>>), U(<<N, N>>), U(<<Z, E>>),
           U(<<F(<<>>, N), M(S, N)>>)>>
(* Fewer of them, for forms of three operands. *)
Few == <<N, S, Z, E, A, L(N), L(NZ), M(S, N), F(<<>>, N), R("r"), Alias("opt"), NE, NSZ, U(<<Z, E>>)>>

V(x) == [k |-> "var", x |-> x]
Num(n) == [k |-> "num", v |-> n]
Str == [k |-> "str", v |-> "s"]
None == [k |-> "none"]
True == [k |-> "bool", v |-> TRUE]
Just(e) == [k |-> "block", ss |-> <<>>, e |-> e]
Then(x, e, f) == [k |-> "block", ss |-> <<[x |-> x, e |-> e]>>, e |-> f]
Bin(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
Call(f, as) == [k |-> "call", f |-> f, as |-> as]
Built(f, as) == [k |-> "built", f |-> f, as |-> as]
Lam(ps, r, e) == [k |-> "lam", ps |-> ps, r |-> r, body |-> Just(e)]
Item(e) == [m |-> FALSE, e |-> e]
Spread(e) == [m |-> TRUE, e |-> e]
List(t, es) == [k |-> "list", t |-> t, es |-> es]
Entry(a, b) == [m |-> FALSE, e |-> a, v |-> b]
Map(a, b, es) == [k |-> "map", kt |-> a, vt |-> b, es |-> es]
If(c, a, b) == [k |-> "if", c |-> c, a |-> Just(a), b |-> Just(b)]
IfList(l, a, b) == [k |-> "iflist", l |-> l, x |-> "x", xs |-> "xs", a |-> Just(a), b |-> Just(b)]
IfMap(m, key, a, b) == [k |-> "ifmap", m |-> m, key |-> key, x |-> "x", a |-> Just(a), b |-> Just(b)]
Branch(t, e) == [t |-> t, e |-> Just(e)]
IfType(e, bs, el) == [k |-> "iftype", x |-> "x", e |-> e, bs |-> bs, of |-> [k |-> "none"], else |-> el]
Absent == [k |-> "absent"]
Clause(xs, ls) == [xs |-> xs, ls |-> ls, c |-> [k |-> "always"]]
ClauseIf(xs, ls, c) == [xs |-> xs, ls |-> ls, c |-> c]
Comp(t, bs, e) == [k |-> "comp", t |-> t, bs |-> bs, e |-> e]
Rec(n, fs) == [k |-> "rec", n |-> n, fs |-> fs]
Upd(n, e, fs) == [k |-> "upd", n |-> n, e |-> e, fs |-> fs]
Given1(x, e) == [x |-> x, e |-> e]
Field(e, f) == [k |-> "field", e |-> e, f |-> f]
Try(e) == [k |-> "try", e |-> e]
Fun(x, ps, r, e) == [x |-> x, ps |-> ps, r |-> r, body |-> Just(e)]
FunB(x, ps, r, b) == [x |-> x, ps |-> ps, r |-> r, body |-> b]

One(ps, r, e) == <<Fun("f", ps, r, e)>>
I == 1..Len(Types)
J == 1..Len(Few)

(* The functions of a module, by family and choices. *)
Ops == <<"+", "-", "<", "&", "==", "!=", ">=", "|", "/">>
(* Where a value of one type meets another type. *)
Meet(w, t, u) ==
  LET a == <<P("a", t)>> IN
  CASE w = 1 -> One(a, u, V("a"))
    [] w = 2 -> <<Fun("g", <<P("x", u)>>, Z, None)>> \o One(a, Z, Call(V("g"), <<V("a")>>))
    [] w = 3 -> One(<<P("g", F(<<N, u>>, Z))>> \o a, Z, Call(V("g"), <<Num(1), V("a")>>))
    [] w = 4 -> One(a, A, List(u, <<Item(V("a"))>>))
    [] w = 5 -> One(<<P("a", L(t))>>, A, List(u, <<Spread(V("a"))>>))
    [] w = 6 -> One(a, A, Map(N, u, <<Entry(Num(1), V("a"))>>))
    [] w = 7 -> One(<<P("a", M(N, t))>>, A, Map(N, u, <<Spread(V("a"))>>))
    [] w = 8 -> One(a, A, Lam(<<>>, u, V("a")))
    [] w = 9 -> One(<<P("a", L(t))>>, A, Comp(u, <<Clause(<<"x">>, <<V("a")>>)>>, Call(V("x"), <<>>)))
    [] w = 10 -> One(<<P("c", B), P("d", u)>> \o a, u, If(V("c"), V("d"), V("a")))
    [] w = 11 -> One(<<P("c", L(u))>> \o a, u, IfList(V("c"), Call(V("x"), <<>>), V("a")))
    [] w = 12 -> One(<<P("c", M(S, u))>> \o a, u, IfMap(V("c"), Str, V("x"), V("a")))
    [] w = 13 -> <<FunB("f", a, u, Then("y", V("a"), V("y")))>>
    [] w = 14 -> One(<<P("c", U(<<S, Z>>))>> \o a, u, IfType(V("c"), <<Branch(S, V("a"))>>, Just(V("a"))))
    [] w = 15 -> <<Fun("g", <<>>, t, Call(V("g"), <<>>))>> \o One(<<>>, u, Call(V("g"), <<>>))
    [] w = 16 -> One(<<P("a", L(t))>>, L(u), V("a"))
    [] w = 17 -> One(<<P("a", F(<<t>>, N))>>, F(<<u>>, N), V("a"))
    [] w = 18 -> One(<<P("a", F(<<>>, t))>>, u, Call(V("a"), <<>>))
    [] w = 19 -> One(<<P("a", M(N, t))>>, M(N, u), V("a"))
    [] w = 20 -> One(a, U(<<u, E>>), V("a"))

Tries(w, t, u) ==
  LET a == <<P("a", t)>> IN
  CASE w = 1 -> One(a, u, Try(V("a")))
    [] w = 2 -> <<FunB("f", a, u, Then("x", Try(V("a")), None))>>
    [] w = 3 -> One(a, u, Built("size", <<List(N, <<Item(Try(V("a")))>>)>>))
    [] w = 4 -> One(a, u, Map(S, A, <<Entry(Str, Try(V("a")))>>))
    [] w = 5 -> One(a, Z, Built("debug", <<Lam(<<>>, u, Try(V("a")))>>))
    [] w = 6 -> One(a, NE, List(A, <<Item(Lam(<<>>, u, Try(V("a"))))>>))
    [] w = 7 -> One(a, u, If(True, Try(V("a")), None))
    [] w = 8 -> One(<<P("a", L(t))>>, NE, Built("size", <<Comp(A, <<Clause(<<"x">>, <<V("a")>>)>>, Try(Call(V("x"), <<>>)))>>))
    [] w = 9 -> One(<<P("a", U(<<L(N), E>>))>>, u, Comp(A, <<Clause(<<"x">>, <<Try(V("a"))>>)>>, Num(1)))
    [] w = 10 -> One(a, u, Call(Lam(<<>>, A, Num(1)), <<Try(V("a"))>>))
    [] w = 11 -> One(a, u, Rec("r", <<Given1("a", Try(V("a"))), Given1("b", None)>>))
    [] w = 12 -> One(<<P("l", L(N))>> \o a, u, IfList(V("l"), Try(V("a")), Num(1)))
    [] w = 13 -> One(<<P("l", M(S, N))>> \o a, u, IfMap(V("l"), Str, Num(1), Try(V("a"))))
    [] w = 14 -> One(<<P("l", NZ)>> \o a, u, IfType(V("l"), <<Branch(N, Num(1))>>, Just(Try(V("a")))))

(* Each name where it can be read, and where not. *)
Used(w) == V(<<"x", "xs", "y", "z", "f", "g", "o", "u">>[w])
Scopes(w, n) ==
  LET u == Used(n)
      ps == <<P("o", N)>>
      f(e) == <<Fun("f", ps, A, e), Fun("g", <<P("z", N)>>, N, V("z"))>>
      fb(b) == <<FunB("f", ps, A, b), Fun("g", <<P("z", N)>>, N, V("z"))>>
      l == List(N, <<>>)
      m == Map(S, N, <<>>)
  IN CASE w = 1 -> f(u)
       [] w = 2 -> f(IfList(l, u, None))
       [] w = 3 -> f(IfList(l, None, u))
       [] w = 4 -> f(IfList(List(A, <<Item(u)>>), None, None))
       [] w = 5 -> f(IfMap(m, Str, u, None))
       [] w = 6 -> f(IfMap(m, Str, None, u))
       [] w = 7 -> f(IfType(If(True, Num(1), None), <<Branch(N, u)>>, Just(None)))
       [] w = 8 -> f(IfType(If(True, Num(1), None), <<Branch(N, None)>>, Just(u)))
       [] w = 9 -> fb(Then("x", Num(1), u))
       [] w = 10 -> fb(Then("y", u, None))
       [] w = 11 -> f(If(True, Num(1), u))
       [] w = 12 -> fb(Then("z", [k |-> "if", c |-> True, a |-> Then("y", Num(1), None), b |-> Just(None)], u))
       [] w = 13 -> f(Comp(A, <<Clause(<<"x">>, <<l>>)>>, u))
       [] w = 14 -> f(Comp(A, <<Clause(<<"x">>, <<List(A, <<Item(u)>>)>>)>>, None))
       [] w = 15 -> f(Comp(A, <<ClauseIf(<<"x">>, <<l>>, Bin("==", Num(1), Call(Lam(<<P("t", A)>>, N, Num(1)), <<u>>)))>>, None))
       [] w = 16 -> f(Comp(A, <<Clause(<<"x">>, <<l>>), Clause(<<"y">>, <<List(A, <<Item(u)>>)>>)>>, None))
       [] w = 17 -> f(Comp(A, <<Clause(<<"x">>, <<List(A, <<Item(u)>>)>>), Clause(<<"y">>, <<l>>)>>, None))
       [] w = 18 -> f(Comp(A, <<Clause(<<"x", "y">>, <<l, List(A, <<Item(u)>>)>>)>>, None))
       [] w = 19 -> f(Lam(<<P("x", N)>>, A, u))
       [] w = 20 -> fb(Then("z", Lam(<<P("x", N)>>, A, None), u))
       [] w = 21 -> fb(Then("x", Lam(<<>>, A, u), None))

Recs(w, t) ==
  LET a == <<P("a", t)>>
      fa == Given1("a", V("a"))
      fb == Given1("b", None)
  IN CASE w = 1 -> One(a, R("r"), Rec("r", <<fa, fb>>))
       [] w = 2 -> One(a, R("r"), Rec("r", <<fb, Given1("a", Num(1)), Given1("c", V("a"))>>))
       [] w = 3 -> One(a, R("r"), Rec("r", <<fa>>))
       [] w = 4 -> One(a, R("r"), Rec("r", <<Given1("a", Num(1)), Given1("b", V("a"))>>))
       [] w = 5 -> One(a, R("r"), Upd("r", V("a"), <<Given1("a", Num(2))>>))
       [] w = 6 -> One(a, A, Upd("p", V("a"), <<Given1("q", List(N, <<>>))>>))
       [] w = 7 -> One(<<P("x", R("r"))>> \o a, A, Upd("r", V("x"), <<fa>>))
       [] w = 8 -> One(<<P("x", R("r"))>> \o a, A, Upd("r", V("x"), <<Given1("b", V("a"))>>))
       [] w = 9 -> One(<<P("x", R("r"))>> \o a, A, Upd("r", V("x"), <<Given1("q", V("a"))>>))
       [] w = 10 -> One(a, A, Field(V("a"), "a"))
       [] w = 11 -> One(a, L(N), Field(V("a"), "q"))
       [] w = 12 -> One(a, N, Field(Field(V("a"), "r"), "a"))
       [] w = 13 -> One(a, A, Rec("rr", <<fa, fb>>))
       [] w = 14 -> One(a, A, Rec("num", <<fa>>))
       [] w = 15 -> One(a, A, Rec("none1", <<fa>>))
       [] w = 16 -> One(a, A, Rec("e", <<>>))
       [] w = 17 -> One(a, R("v"), Rec("v", <<Given1("v", V("a"))>>))
       [] w = 18 -> One(a, R("h"), Rec("h", <<Given1("f", V("a"))>>))
       [] w = 19 -> One(a, A, Rec("r", <<>>))
       [] w = 20 -> One(a, A, Field(V("a"), "v"))
       [] w = 21 -> One(a, A, Rec("r", <<fa, Given1("a", Num(1)), fb>>))

Comps(w, t) ==
  LET a == <<P("a", t)>>
      x == Call(V("x"), <<>>)
      y == Call(V("y"), <<>>)
      l == List(N, <<>>)
  IN CASE w = 1 -> One(a, A, Comp(A, <<Clause(<<"x">>, <<V("a")>>)>>, x))
       [] w = 2 -> One(a, A, Comp(N, <<Clause(<<"x">>, <<V("a")>>)>>, x))
       [] w = 3 -> One(a, A, Comp(A, <<Clause(<<"x">>, <<V("a")>>)>>, V("x")))
       [] w = 4 -> One(a, A, Comp(N, <<Clause(<<"x">>, <<V("a")>>)>>, V("x")))
       [] w = 5 -> One(a, A, Comp(A, <<Clause(<<"x", "y">>, <<l, V("a")>>)>>, y))
       [] w = 6 -> One(a, A, Comp(A, <<Clause(<<"x", "y">>, <<V("a")>>)>>, x))
       [] w = 7 -> One(a, A, Comp(A, <<Clause(<<"x">>, <<V("a"), V("a")>>)>>, x))
       [] w = 8 -> One(a, A, Comp(A, <<ClauseIf(<<"x">>, <<l>>, V("a"))>>, x))
       [] w = 9 -> One(a, A, Comp(A, <<Clause(<<"x">>, <<V("a")>>), Clause(<<"y">>, <<x>>)>>, y))
       [] w = 10 -> One(a, A, Comp(N, <<Clause(<<"x">>, <<V("a")>>), Clause(<<"y">>, <<x>>)>>, y))
       [] w = 11 -> One(a, A, Comp(N, <<Clause(<<"x">>, <<l>>), ClauseIf(<<"y">>, <<l>>, V("a"))>>, y))
       [] w = 12 -> One(a, A, Comp(N, <<ClauseIf(<<"x">>, <<l>>, V("a")), Clause(<<"y">>, <<l>>)>>, y))
       [] w = 13 -> One(a, L(N), Comp(N, <<Clause(<<"x">>, <<l>>)>>, V("a")))
       [] w = 14 -> One(a, L(N), Comp(N, <<Clause(<<"a">>, <<V("a")>>)>>, Call(V("a"), <<>>)))

Calls(w, t) ==
  LET a == <<P("a", t)>>
      f2 == <<Fun("g", <<P("x", N), P("y", S)>>, S, V("y"))>>
  IN CASE w = 1 -> One(a, A, Call(V("a"), <<>>))
       [] w = 2 -> One(a, A, Call(V("a"), <<Num(1)>>))
       [] w = 3 -> One(a, A, Call(V("a"), <<Num(1), Str>>))
       [] w = 4 -> One(a, A, Call(V("a"), <<None>>))
       [] w = 5 -> One(a, S, Call(V("a"), <<Num(1), Str>>))
       [] w = 6 -> f2 \o One(a, S, Call(V("g"), <<Num(1), V("a")>>))
       [] w = 7 -> f2 \o One(a, S, Call(V("g"), <<V("a"), Str>>))
       [] w = 8 -> f2 \o One(a, S, Call(V("g"), <<V("a")>>))
       [] w = 9 -> f2 \o One(a, S, Call(V("g"), <<Num(1), Str, V("a")>>))
       [] w = 10 -> One(a, N, Call(Call(Lam(<<>>, t, V("a")), <<>>), <<>>))
       [] w = 11 -> f2 \o One(a, A, Call(If(True, V("g"), V("a")), <<Num(1), Str>>))
       [] w = 12 -> <<FunB("f", a, Z, Then("", V("a"), None))>>
       [] w = 13 -> <<FunB("f", a, Z, Then("y", V("a"), None))>>
       [] w = 14 -> <<FunB("f", a, Z, Then("", Call(Lam(<<>>, t, V("a")), <<>>), None))>>
       [] w = 15 -> One(a, Z, If(V("a"), None, None))
       [] w = 16 -> One(a, B, [k |-> "not", a |-> V("a")])
       [] w = 17 -> One(a, L(N), If(True, V("a"), List(N, <<>>)))
       [] w = 18 -> <<FunB("f", a, Z, [k |-> "block", ss |-> <<[x |-> "", e |-> Num(1)], [x |-> "", e |-> V("a")]>>, e |-> None])>>
       [] w = 19 -> One(a, A, Lam(<<>>, Z, Call(Lam(<<>>, N, V("a")), <<>>)))

Builts == <<"size", "keys", "values", "delete", "debug", "error", "source", "go", "race">>

Branches(w, t, u, v) ==
  LET a == <<P("a", t)>> IN
  CASE w = 1 -> One(a, v, IfType(V("a"), <<Branch(u, V("x"))>>, Just(V("x"))))
    [] w = 2 -> One(a, v, IfType(V("a"), <<Branch(u, V("x"))>>, Absent))
    [] w = 3 -> One(a, A, IfType(V("a"), <<Branch(u, Num(1)), Branch(v, Num(2))>>, Absent))
    [] w = 4 -> One(a, A, IfType(V("a"), <<Branch(u, Num(1)), Branch(v, Num(2))>>, Just(Num(3))))
    [] w = 5 -> One(a, v, IfType(V("a"), <<Branch(u, V("x"))>>, Just(Num(1))))
    [] w = 6 -> One(a \o <<P("c", v)>>, U(<<N, Z>>), IfType(V("a"), <<Branch(u, Num(1)), Branch(N, V("c"))>>, Just(None)))

Peels(w, t, u, v) ==
  LET a == <<P("a", t)>> IN
  CASE w = 1 -> One(a, u, IfList(V("a"), Call(V("x"), <<>>), None))
    [] w = 2 -> One(a, u, IfList(V("a"), V("xs"), None))
    [] w = 3 -> One(a, u, IfList(V("a"), V("x"), None))
    [] w = 4 -> One(<<P("b", u)>> \o a, v, IfMap(V("a"), V("b"), V("x"), Num(1)))
    [] w = 5 -> One(<<P("b", u)>> \o a, A, Built("delete", <<V("a"), V("b")>>))
    [] w = 6 -> One(<<P("b", u), P("c", v)>> \o a, t, Map(S, N, <<Spread(V("a")), Entry(V("b"), V("c"))>>))
    [] w = 7 -> One(<<P("b", u), P("c", v)>> \o a, A, Map(NZ, NSZ, <<Spread(V("a")), Entry(V("b"), V("c"))>>))

Decl(al, rs) == [al |-> al, rs |-> rs, fs |-> <<>>]
Choices(f) ==
  CASE f = "operators" -> (1..Len(Ops)) \X I \X I
    [] f = "meet" -> (1..20) \X I \X I
    [] f = "try" -> (1..14) \X I \X I
    [] f = "scopes" -> (1..21) \X (1..8) \X {1}
    [] f = "records" -> (1..21) \X I \X {1}
    [] f = "comprehensions" -> (1..14) \X I \X {1}
    [] f = "calls" -> (1..19) \X I \X {1}
    [] f = "built" -> (1..Len(Builts)) \X (0..Len(Types)) \X (0..Len(Types))
    [] f = "branches" -> (1..6) \X (J \X J) \X J
    [] f = "peels" -> (1..7) \X (J \X J) \X J
    [] f = "types" -> (1..8) \X I \X I
    [] f = "declarations" -> (1..12) \X (1..6) \X (1..6)

(* Types that may not be written. *)
Odd(w, t, u) ==
  CASE w = 1 -> One(<<P("a", M(t, N))>>, Z, None)
    [] w = 2 -> One(<<>>, A, Map(t, u, <<>>))
    [] w = 3 -> One(<<>>, F(<<t>>, L(M(u, t))), Call(V("f"), <<>>))
    [] w = 4 -> One(<<P("a", M(S, t)), P("b", M(S, u))>>, B, Bin("==", V("a"), V("b")))
    [] w = 5 -> One(<<P("a", L(U(<<t, u>>))), P("b", L(U(<<u, t>>)))>>, B, Bin("==", V("a"), V("b")))
    [] w = 6 -> One(<<P("a", U(<<t, u>>)), P("b", t)>>, B, Bin("==", V("a"), V("b")))
    [] w = 7 -> One(<<P("a", U(<<t, M(S, u)>>)), P("b", t)>>, U(<<M(S, u), t>>), If(Bin("==", Num(1), Num(2)), V("a"), V("b")))
    [] w = 8 -> One(<<P("a", F(<<U(<<t, u>>)>>, t))>>, F(<<U(<<u, t, t>>)>>, t), V("a"))

(* Definitions of types that refer to each other: a and b aliases, s and t records, by the number of what they are. *)
Means(n) == <<N, Alias("a"), Alias("b"), R("s"), R("t"), L(R("s")), U(<<R("s"), Z>>), U(<<R("t"), N>>), F(<<Alias("a")>>, R("t")), U(<<R("s"), R("t")>>), Alias("c"), M(R("t"), N)>>[n]
Declared(i, j, l) == Decl(<<P("a", Means(i)), P("b", Means(1 + ((i * 5 + j * 7 + l * 3) % 12)))>>,
                          <<[x |-> "s", fs |-> <<P("x", Means(j * 2)), P("y", Means(1 + ((i + l) % 3)))>>], [x |-> "t", fs |-> <<P("x", Means(l * 2 - 1)), P("z", Means(1 + ((j + l + i) % 12)))>>]>>)

Functions(f, c) ==
  LET w == c[1] IN
  CASE f = "operators" -> One(<<P("a", Types[c[2]]), P("b", Types[c[3]])>>, A, Bin(Ops[w], V("a"), V("b")))
    [] f = "meet" -> Meet(w, Types[c[2]], Types[c[3]])
    [] f = "try" -> Tries(w, Types[c[2]], Types[c[3]])
    [] f = "scopes" -> Scopes(w, c[2])
    [] f = "records" -> Recs(w, Types[c[2]])
    [] f = "comprehensions" -> Comps(w, Types[c[2]])
    [] f = "calls" -> Calls(w, Types[c[2]])
    [] f = "built" -> LET ps == (IF c[2] = 0 THEN <<>> ELSE <<P("a", Types[c[2]])>>) \o (IF c[3] = 0 THEN <<>> ELSE <<P("b", Types[c[3]])>>)
                      IN <<FunB("f", ps, A, Then("y", Built(Builts[w], [i \in DOMAIN ps |-> V(ps[i].x)]), V("y")))>>
    [] f = "branches" -> Branches(w, Few[c[2][1]], Few[c[2][2]], Few[c[3]])
    [] f = "peels" -> Peels(w, Few[c[2][1]], Few[c[2][2]], Few[c[3]])
    [] f = "types" -> Odd(w, Types[c[2]], Types[c[3]])
Module(f, c) == IF f = "declarations" THEN Declared(c[1], c[2], c[3]) ELSE [al |-> Aliases, rs |-> Records, fs |-> Functions(f, c)]

Place(f, c, step) == LET n(x) == IF f \in {"branches", "peels"} THEN x[1] * 31 + x[2] * 7 ELSE x IN (c[1] * 101 + n(c[2]) * 13 + c[3] * 57 + Offset) % step
VARIABLE family, choice, done
Init == family \in Families /\ choice \in {x \in Choices(family) : family \in {"scopes", "records", "comprehensions", "calls", "declarations"} \/ Place(family, x, Step) = 0} /\ done = FALSE
Next ==
  /\ ~done
  /\ LET m == Module(family, choice) IN PrintT("@@" \o ToJson([f |-> family, m |-> m, v |-> Verdict(m)]))
  /\ done' = TRUE /\ UNCHANGED <<family, choice>>
Spec == Init /\ [][Next]_<<family, choice, done>>
=============================================================================
