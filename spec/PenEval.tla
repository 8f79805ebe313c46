------------------------------- MODULE PenEval -------------------------------
(* What expressions of Pen evaluate to: strict in arguments, lazy in the elements of lists, with early
   exits by `?`. States hold the thunks made so far, what has been printed, and fuel. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

N == [k |-> "num"]
B == [k |-> "bool"]
S == [k |-> "str"]
Z == [k |-> "none"]
A == [k |-> "any"]
E == [k |-> "err"]
L(e) == [k |-> "list", e |-> e]
M(a, b) == [k |-> "map", a |-> a, b |-> b]
R(n) == [k |-> "rec", n |-> n]
U(ts) == [k |-> "union", ts |-> ts]
F(ps, r) == [k |-> "fn", ps |-> ps, r |-> r]

(* Records: their fields in the order of the definition. *)
RecordFields ==
  [r |-> <<[x |-> "a", t |-> N], [x |-> "b", t |-> U(<<S, Z>>)]>>,
   p |-> <<[x |-> "r", t |-> R("r")], [x |-> "q", t |-> L(N)]>>,
   t |-> <<[x |-> "z", t |-> N], [x |-> "a", t |-> N], [x |-> "m", t |-> N]>>,
   w |-> [i \in 1..11 |-> [x |-> <<"k", "b", "j", "a", "i", "c", "h", "d", "g", "e", "f">>[i], t |-> IF i = 5 THEN S ELSE N]]]

Limit == 30000
Abs(n) == IF n < 0 THEN -n ELSE n

Num(n) == [k |-> "n", n |-> n]
Bool(b) == [k |-> "b", b |-> b]
Str(s) == [k |-> "s", s |-> s]
None == [k |-> "z"]
ListV(t, l) == [k |-> "l", t |-> t, l |-> l]
(* Elements are given as functions without parameters. *)
Element(t, th) == [k |-> "ft", th |-> th, t |-> F(<<>>, t)]
Nil == [k |-> "nil"]

Tag(v) ==
  CASE v.k = "n" -> N [] v.k = "b" -> B [] v.k = "s" -> S [] v.k = "z" -> Z
    [] v.k = "l" -> L(v.t) [] v.k = "m" -> M(v.kt, v.vt) [] v.k = "r" -> R(v.n) [] v.k = "e" -> E
    [] OTHER -> v.t

RECURSIVE Matches(_, _)
Matches(tag, t) == CASE t.k = "any" -> TRUE [] t.k = "union" -> \E i \in 1..Len(t.ts) : Matches(tag, t.ts[i]) [] OTHER -> tag = t

Thunk(st, e, env) == [st EXCEPT !.th = Append(@, [d |-> FALSE, e |-> e, env |-> env])]
Last(st) == Len(st.th)
Ok(v, st) == [v |-> v, st |-> st, x |-> FALSE]
Big(st) == Ok(None, [st EXCEPT !.big = TRUE])
(* A result to hand on: an early exit, or a computation abandoned for want of fuel. *)
Stop(r) == r.x \/ r.st.big

RECURSIVE Canon(_, _, _), CanonFields(_, _, _, _, _), CanonList(_, _, _, _), Eval(_, _, _, _), EvalAll(_, _, _, _, _), Body(_, _, _, _, _), Force(_, _, _), Node(_, _, _), Loop(_, _, _, _, _),
          Nodes(_, _, _, _), Elements(_, _, _, _, _), Entries(_, _, _, _, _), Branch(_, _, _, _, _), Apply(_, _, _, _),
          Equal(_, _, _, _), EqualLists(_, _, _, _), EqualFields(_, _, _, _, _), Size(_, _, _, _),
          Pairs(_, _), Given(_, _)

Pairs(f, D) == IF D = {} THEN <<>> ELSE LET q == CHOOSE q \in D : TRUE IN <<[key |-> q, v |-> f[q]]>> \o Pairs(f, D \ {q})
(* The list of values whose thunks follow the n-th. *)
Given(vs, n) == IF vs = <<>> THEN Nil ELSE [k |-> "cons", th |-> n + 1, r |-> Given(Tail(vs), n + 1)]

(* fs: the functions of the module; e: expression; env: variables; st: state. *)
EvalAll(fs, es, env, st, vs) ==
  IF es = <<>> THEN [vs |-> vs, v |-> None, st |-> st, x |-> FALSE]
  ELSE LET r == Eval(fs, es[1], env, st) IN
       IF Stop(r) THEN [vs |-> vs, v |-> r.v, st |-> r.st, x |-> r.x]
       ELSE EvalAll(fs, Tail(es), env, r.st, Append(vs, r.v))

Bind(xs, vs, env) == [x \in {xs[i] : i \in 1..Len(xs)} |-> vs[CHOOSE i \in 1..Len(xs) : xs[i] = x /\ \A j \in i + 1..Len(xs) : xs[j] # x]] @@ env

Apply(fs, f, vs, st) ==
  IF st.fuel = 0 THEN Big(st)
  ELSE LET s == [st EXCEPT !.fuel = @ - 1]
           r == CASE f.k = "ft" -> Force(fs, f.th, s)
                  [] f.k = "top" -> LET d == fs[f.x] IN
                       IF f.x = "tick" THEN Ok(vs[1], [s EXCEPT !.out = Append(@, vs[1].n)])
                       ELSE Eval(fs, d.body, Bind([i \in 1..Len(d.ps) |-> d.ps[i].x], vs, [v \in {} |-> 0]), s)
                  [] OTHER -> Eval(fs, f.body, Bind([i \in 1..Len(f.ps) |-> f.ps[i].x], vs, f.env), s)
       IN [r EXCEPT !.x = FALSE]

Force(fs, th, st) ==
  LET t == st.th[th] IN
  IF t.d THEN Ok(t.v, st)
  ELSE LET r == Eval(fs, t.e, t.env, st) IN
       IF r.st.big THEN r ELSE Ok(r.v, [r.st EXCEPT !.th[th] = [d |-> TRUE, v |-> r.v]])

(* The first element (a thunk) and the rest of a list. *)
Node(fs, l, st) ==
  IF st.fuel = 0 THEN [h |-> FALSE, st |-> [st EXCEPT !.big = TRUE]]
  ELSE LET s == [st EXCEPT !.fuel = @ - 1] IN
  CASE l.k = "nil" -> [h |-> FALSE, st |-> s]
    [] l.k = "cons" -> [h |-> TRUE, th |-> l.th, r |-> l.r, st |-> s]
    [] l.k = "cat" ->
         LET f == Force(fs, l.th, s) IN
         IF f.st.big THEN [h |-> FALSE, st |-> f.st] ELSE Node(fs, [k |-> "catl", a |-> f.v.l, r |-> l.r], f.st)
    [] l.k = "catl" ->
         LET a == Node(fs, l.a, s) IN
         IF a.h THEN [a EXCEPT !.r = [k |-> "catl", a |-> a.r, r |-> l.r]]
         ELSE IF a.st.big THEN a ELSE Node(fs, l.r, a.st)
    [] l.k = "lazy" ->
         LET f == Force(fs, l.th, s) IN
         IF f.st.big THEN [h |-> FALSE, st |-> f.st] ELSE Node(fs, f.v.l, f.st)
    [] l.k = "comp" ->
         LET r == EvalAll(fs, l.e.bs[1].ls, l.env, s, <<>>) IN
         IF r.st.big THEN [h |-> FALSE, st |-> r.st]
         ELSE LET m == Loop(fs, l.e, l.env, r.vs, r.st) IN
              IF m.st.big THEN [h |-> FALSE, st |-> m.st] ELSE Node(fs, m.v.l, m.st)

Nodes(fs, ls, st, ns) ==
  IF ls = <<>> THEN [h |-> TRUE, ns |-> ns, st |-> st]
  ELSE LET n == Node(fs, ls[1].l, st) IN
       IF n.h THEN Nodes(fs, Tail(ls), n.st, Append(ns, [th |-> n.th, r |-> n.r])) ELSE [h |-> FALSE, ns |-> ns, st |-> n.st]

(* What the lists ls contribute to a comprehension. *)
Loop(fs, e, env, ls, st) ==
  IF st.fuel = 0 THEN Big(st)
  ELSE
  LET b == e.bs[1]
      m == Nodes(fs, ls, [st EXCEPT !.fuel = @ - 1], <<>>)
  IN IF m.st.big THEN Big(m.st)
     ELSE IF ~m.h THEN Ok(ListV(e.t, Nil), m.st)
     ELSE LET env2 == Bind(b.xs, [i \in 1..Len(b.xs) |-> Element(ls[i].t, m.ns[i].th)], env)
              rests == [i \in 1..Len(ls) |-> ListV(ls[i].t, m.ns[i].r)]
              c == IF b.c.k = "always" THEN Ok(Bool(TRUE), m.st) ELSE Eval(fs, b.c, env2, m.st)
          IN IF c.st.big THEN c
             ELSE IF ~c.v.b THEN Loop(fs, e, env, rests, c.st)
             ELSE LET s1 == Thunk(c.st, IF Len(e.bs) = 1 THEN e.e ELSE [e EXCEPT !.bs = Tail(@)], env2)
                      s2 == Thunk(s1, [k |-> "loop", c |-> e, ls |-> rests], env)
                  IN Ok(ListV(e.t, [k |-> IF Len(e.bs) = 1 THEN "cons" ELSE "cat", th |-> Last(s1), r |-> [k |-> "lazy", th |-> Last(s2)]]), s2)

(* Literals of lists: nothing is evaluated. *)
Elements(es, i, t, env, st) ==
  IF i > Len(es) THEN [l |-> Nil, st |-> st]
  ELSE LET s == Thunk(st, es[i].e, env) IN
       IF es[i].m /\ i = Len(es) THEN [l |-> [k |-> "lazy", th |-> Last(s)], st |-> s]
       ELSE LET r == Elements(es, i + 1, t, env, s) IN
            [l |-> [k |-> IF es[i].m THEN "cat" ELSE "cons", th |-> Last(s), r |-> r.l], st |-> r.st]

(* What stands for a key in a map: the same for equal keys only. All elements of lists in it are evaluated. *)
Key(fs, kt, v, st) == IF kt.k = "num" THEN [c |-> v.n, st |-> st] ELSE IF kt.k = "str" THEN [c |-> v.s, st |-> st] ELSE Canon(fs, v, st)
Canon(fs, v, st) ==
  CASE v.k = "n" -> [c |-> [cn |-> v.n], st |-> st]
    [] v.k = "b" -> [c |-> [cb |-> v.b], st |-> st]
    [] v.k = "s" -> [c |-> [cs |-> v.s], st |-> st]
    [] v.k = "z" -> [c |-> [cz |-> 0], st |-> st]
    [] v.k = "l" -> LET r == CanonList(fs, v.l, st, <<>>) IN [c |-> [cl |-> r.c, ct |-> v.t], st |-> r.st]
    [] v.k = "r" -> LET r == CanonFields(fs, RecordFields[v.n], v.f, st, <<>>) IN [c |-> [cr |-> v.n, cf |-> r.c], st |-> r.st]
    [] v.k = "m" /\ v.kt.k = "str" -> [c |-> [cms |-> v.f, cvt |-> v.vt], st |-> st]
    [] v.k = "m" /\ v.kt.k # "str" -> [c |-> [cm |-> v.f, ckt |-> v.kt, cvt |-> v.vt], st |-> st]
CanonFields(fs, xs, f, st, cs) ==
  IF xs = <<>> THEN [c |-> cs, st |-> st]
  ELSE LET r == Canon(fs, f[xs[1].x], st) IN CanonFields(fs, Tail(xs), f, r.st, Append(cs, r.c))
CanonList(fs, l, st, cs) ==
  LET m == Node(fs, l, st) IN
  IF m.st.big \/ ~m.h THEN [c |-> cs, st |-> m.st]
  ELSE LET x == Force(fs, m.th, m.st) IN
       IF x.st.big THEN [c |-> cs, st |-> x.st]
       ELSE LET r == Canon(fs, x.v, x.st) IN CanonList(fs, m.r, r.st, Append(cs, r.c))

(* Literals of maps: a later entry replaces an earlier one; a map spread into it yields to what is written before it and is
   evaluated before that. *)
Entries(fs, kt, es, env, st) ==
  IF es = <<>> THEN [f |-> [v \in {} |-> 0], v |-> None, st |-> st, x |-> FALSE]
  ELSE LET e == es[Len(es)]
           Front(s) == Entries(fs, kt, SubSeq(es, 1, Len(es) - 1), env, s) IN
       IF e.m
       THEN LET r == Eval(fs, e.e, env, st) IN
            IF Stop(r) THEN [f |-> [v \in {} |-> 0], v |-> r.v, st |-> r.st, x |-> r.x]
            ELSE LET q == Front(r.st) IN [q EXCEPT !.f = @ @@ r.v.f]
       ELSE LET q == Front(st) IN
            IF Stop(q) THEN q
            ELSE LET r == EvalAll(fs, <<e.e, e.v>>, env, q.st, <<>>) IN
                 IF Stop(r) THEN [f |-> q.f, v |-> r.v, st |-> r.st, x |-> r.x]
                 ELSE LET key == Key(fs, kt, r.vs[1], r.st) IN [f |-> (key.c :> r.vs[2]) @@ q.f, v |-> None, st |-> key.st, x |-> FALSE]

Body(fs, ss, e, env, st) ==
  IF ss = <<>> THEN Eval(fs, e, env, st)
  ELSE LET r == Eval(fs, ss[1].e, env, st) IN
       IF Stop(r) THEN r ELSE Body(fs, Tail(ss), e, IF ss[1].x = "" THEN env ELSE Bind(<<ss[1].x>>, <<r.v>>, env), r.st)

Branch(fs, e, v, env, st) ==
  LET tag == Tag(v)
      is == {i \in 1..Len(e.bs) : Matches(tag, e.bs[i].t)}
      env2 == Bind(<<e.x>>, <<v>>, env)
  IN IF is # {} THEN Eval(fs, e.bs[CHOOSE i \in is : \A j \in is : i <= j].e, env2, st) ELSE Eval(fs, e.else, env2, st)


Arith(op, a, b, st) ==
  IF Abs(a) > Limit \/ Abs(b) > Limit THEN Big(st)
  ELSE Ok(Num(CASE op = "+" -> a + b [] op = "-" -> a - b [] op = "*" -> a * b), st)

Compare(op, a, b) == CASE op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b

Binary(fs, e, env, st) ==
  IF e.op \in {"&", "|"} THEN
    LET a == Eval(fs, e.a, env, st) IN
    IF Stop(a) \/ a.v.b = (e.op = "|") THEN a ELSE Eval(fs, e.b, env, a.st)
  ELSE
    LET r == EvalAll(fs, <<e.a, e.b>>, env, st, <<>>) IN
    IF Stop(r) THEN [v |-> r.v, st |-> r.st, x |-> r.x]
    ELSE LET a == r.vs[1]
             b == r.vs[2]
         IN CASE e.op \in {"+", "-", "*"} -> IF a.k = "s" THEN Ok(Str(a.s \o b.s), r.st) ELSE Arith(e.op, a.n, b.n, r.st)
              [] e.op \in {"<", "<=", ">", ">="} -> Ok(Bool(Compare(e.op, a.n, b.n)), r.st)
              [] OTHER -> LET q == Equal(fs, a, b, r.st) IN Ok(Bool(q.b = (e.op = "==")), q.st)

Eval(fs, e, env, st) ==
  IF st.big \/ st.fuel = 0 THEN Big(st)
  ELSE LET s == [st EXCEPT !.fuel = @ - 1] IN
  CASE e.k = "num" -> Ok(Num(e.v), s)
    [] e.k = "bool" -> Ok(Bool(e.v), s)
    [] e.k = "str" -> Ok(Str(e.v), s)
    [] e.k = "none" -> Ok(None, s)
    [] e.k = "var" -> Ok(env[e.x], s)
    [] e.k = "top" -> Ok([k |-> "top", x |-> e.x, t |-> e.t], s)
    [] e.k = "bin" -> Binary(fs, e, env, s)
    [] e.k = "not" -> LET r == Eval(fs, e.a, env, s) IN IF Stop(r) THEN r ELSE Ok(Bool(~r.v.b), r.st)
    [] e.k = "block" -> Body(fs, e.ss, e.e, env, s)
    [] e.k = "if" -> LET c == Eval(fs, e.c, env, s) IN IF Stop(c) THEN c ELSE Eval(fs, IF c.v.b THEN e.a ELSE e.b, env, c.st)
    [] e.k = "call" ->
         LET r == EvalAll(fs, <<e.f>> \o e.as, env, s, <<>>) IN
         IF Stop(r) THEN [v |-> r.v, st |-> r.st, x |-> r.x] ELSE Apply(fs, r.vs[1], Tail(r.vs), r.st)
    [] e.k = "lam" -> Ok([k |-> "f", ps |-> e.ps, body |-> e.body, env |-> env, t |-> e.t], s)
    [] e.k = "list" -> LET r == Elements(e.es, 1, e.t, env, s) IN Ok(ListV(e.t, r.l), r.st)
    [] e.k = "comp" -> Ok(ListV(e.t, [k |-> "comp", e |-> e, env |-> env]), s)
    [] e.k = "loop" -> Loop(fs, e.c, env, e.ls, s)
    [] e.k = "iflist" ->
         LET r == Eval(fs, e.l, env, s) IN
         IF Stop(r) THEN r
         ELSE LET n == Node(fs, r.v.l, r.st) IN
              IF n.st.big THEN Big(n.st)
              ELSE IF n.h THEN Eval(fs, e.a, Bind(<<e.x, e.xs>>, <<Element(r.v.t, n.th), ListV(r.v.t, n.r)>>, env), n.st)
              ELSE Eval(fs, e.b, env, n.st)
    [] e.k = "map" ->
         LET r == Entries(fs, e.kt, e.es, env, s) IN
         IF Stop(r) THEN [v |-> r.v, st |-> r.st, x |-> r.x] ELSE Ok([k |-> "m", kt |-> e.kt, vt |-> e.vt, f |-> r.f], r.st)
    [] e.k = "ifmap" ->
         LET r == EvalAll(fs, <<e.m, e.key>>, env, s, <<>>) IN
         IF Stop(r) THEN [v |-> r.v, st |-> r.st, x |-> r.x]
         ELSE LET key == Key(fs, r.vs[1].kt, r.vs[2], r.st) IN
              IF key.c \in DOMAIN r.vs[1].f THEN Eval(fs, e.a, Bind(<<e.x>>, <<r.vs[1].f[key.c]>>, env), key.st) ELSE Eval(fs, e.b, env, key.st)
    [] e.k = "delete" ->
         LET r == EvalAll(fs, <<e.m, e.key>>, env, s, <<>>) IN
         IF Stop(r) THEN [v |-> r.v, st |-> r.st, x |-> r.x]
         ELSE LET key == Key(fs, r.vs[1].kt, r.vs[2], r.st) IN Ok([r.vs[1] EXCEPT !.f = [q \in DOMAIN @ \ {key.c} |-> @[q]]], key.st)
    [] e.k = "rec" ->
         LET r == EvalAll(fs, [i \in 1..Len(e.fs) |-> e.fs[i].e], env, s, <<>>) IN
         IF Stop(r) THEN [v |-> r.v, st |-> r.st, x |-> r.x]
         ELSE Ok([k |-> "r", n |-> e.n, f |-> Bind([i \in 1..Len(e.fs) |-> e.fs[i].x], r.vs, [v \in {} |-> 0])], r.st)
    [] e.k = "upd" ->
         LET r == EvalAll(fs, <<e.e>> \o [i \in 1..Len(e.fs) |-> e.fs[i].e], env, s, <<>>) IN
         IF Stop(r) THEN [v |-> r.v, st |-> r.st, x |-> r.x]
         ELSE Ok([r.vs[1] EXCEPT !.f = Bind([i \in 1..Len(e.fs) |-> e.fs[i].x], Tail(r.vs), @)], r.st)
    [] e.k = "field" -> LET r == Eval(fs, e.e, env, s) IN IF Stop(r) THEN r ELSE Ok(r.v.f[e.f], r.st)
    [] e.k = "iftype" -> LET r == Eval(fs, e.e, env, s) IN IF Stop(r) THEN r ELSE Branch(fs, e, r.v, env, r.st)
    [] e.k = "try" -> LET r == Eval(fs, e.e, env, s) IN IF Stop(r) THEN r ELSE IF r.v.k = "e" THEN [r EXCEPT !.x = TRUE] ELSE r
    [] e.k = "error" -> LET r == Eval(fs, e.e, env, s) IN IF Stop(r) THEN r ELSE Ok(IF r.v.k = "e" THEN r.v ELSE [k |-> "e", v |-> r.v], r.st)
    [] e.k = "source" -> LET r == Eval(fs, e.e, env, s) IN IF Stop(r) THEN r ELSE Ok(r.v.v, r.st)
    [] e.k = "size" ->
         LET r == Eval(fs, e.e, env, s) IN
         IF Stop(r) THEN r
         ELSE IF r.v.k = "m" THEN Ok(Num(Cardinality(DOMAIN r.v.f)), r.st)
         ELSE Size(fs, r.v.l, r.st, 0)
    (* Keys and values come in no particular order. *)
    [] e.k \in {"keys", "values"} ->
         LET r == Eval(fs, e.e, env, s) IN
         IF Stop(r) THEN r
         ELSE LET ps == Pairs(r.v.f, DOMAIN r.v.f)
                  vs == [i \in 1..Len(ps) |-> IF e.k = "values" THEN ps[i].v ELSE IF r.v.kt = N THEN Num(ps[i].key) ELSE Str(ps[i].key)]
              IN Ok(ListV(IF e.k = "values" THEN r.v.vt ELSE r.v.kt, Given(vs, Len(r.st.th))),
                    [r.st EXCEPT !.th = @ \o [i \in 1..Len(vs) |-> [d |-> TRUE, v |-> vs[i]]]])

(* Sizes need the nodes of a list but none of its elements. *)
Size(fs, l, st, n) ==
  LET m == Node(fs, l, st) IN
  IF m.st.big THEN Big(m.st) ELSE IF m.h THEN Size(fs, m.r, m.st, n + 1) ELSE Ok(Num(n), m.st)

Equal(fs, a, b, st) ==
  IF st.big THEN [b |-> FALSE, st |-> st]
  ELSE IF a.k # b.k THEN [b |-> FALSE, st |-> st]
  ELSE CASE a.k = "n" -> [b |-> a.n = b.n, st |-> st]
         [] a.k = "b" -> [b |-> a.b = b.b, st |-> st]
         [] a.k = "s" -> [b |-> a.s = b.s, st |-> st]
         [] a.k = "z" -> [b |-> TRUE, st |-> st]
         [] a.k = "l" -> IF a.t # b.t THEN [b |-> FALSE, st |-> st] ELSE EqualLists(fs, a.l, b.l, st)
         [] a.k = "r" -> IF a.n # b.n THEN [b |-> FALSE, st |-> st] ELSE EqualFields(fs, RecordFields[a.n], a.f, b.f, st)
         [] a.k = "m" -> IF a.kt # b.kt \/ a.vt # b.vt THEN [b |-> FALSE, st |-> st]
                         ELSE [b |-> DOMAIN a.f = DOMAIN b.f /\ \A q \in DOMAIN a.f : a.f[q] = b.f[q], st |-> st]

EqualFields(fs, xs, f, g, st) ==
  IF xs = <<>> THEN [b |-> TRUE, st |-> st]
  ELSE LET q == Equal(fs, f[xs[1].x], g[xs[1].x], st) IN IF q.b THEN EqualFields(fs, Tail(xs), f, g, q.st) ELSE q

EqualLists(fs, a, b, st) ==
  LET m == Node(fs, a, st)
      n == Node(fs, b, m.st)
  IN IF n.st.big THEN [b |-> FALSE, st |-> n.st]
     ELSE IF ~m.h \/ ~n.h THEN [b |-> m.h = n.h, st |-> n.st]
     ELSE LET x == Force(fs, m.th, n.st)
              y == Force(fs, n.th, x.st)
          IN IF y.st.big THEN [b |-> FALSE, st |-> y.st]
             ELSE LET q == Equal(fs, x.v, y.v, y.st) IN IF q.b THEN EqualLists(fs, m.r, n.r, q.st) ELSE q

(* What is shown of a result: all of it, elements in order. *)
RECURSIVE Show(_, _, _), ShowList(_, _, _, _), ShowAll(_, _, _, _), ShowFields(_, _, _, _, _)
Show(fs, v, st) ==
  CASE v.k = "n" -> Ok([n |-> v.n], st)
    [] v.k = "b" -> Ok([b |-> v.b], st)
    [] v.k = "s" -> Ok([s |-> v.s], st)
    [] v.k = "z" -> Ok([z |-> 0], st)
    [] v.k = "l" -> ShowList(fs, v.l, st, <<>>)
    [] v.k = "r" -> ShowFields(fs, v, RecordFields[v.n], st, <<>>)
    [] v.k = "e" -> LET r == Show(fs, v.v, st) IN Ok([e |-> r.v], r.st)
    [] v.k = "m" -> Ok([m |-> Pairs(v.f, DOMAIN v.f)], st)
    [] OTHER -> Ok([f |-> 0], st)

(* All elements are evaluated before any of them is shown. *)
ShowList(fs, l, st, vs) ==
  LET m == Node(fs, l, st) IN
  IF m.st.big THEN Ok(None, m.st)
  ELSE IF ~m.h THEN ShowAll(fs, vs, m.st, <<>>)
  ELSE LET x == Force(fs, m.th, m.st) IN
       IF x.st.big THEN Ok(None, x.st) ELSE ShowList(fs, m.r, x.st, Append(vs, x.v))

ShowAll(fs, vs, st, out) ==
  IF vs = <<>> THEN Ok([l |-> out], st)
  ELSE LET r == Show(fs, vs[1], st) IN ShowAll(fs, Tail(vs), r.st, Append(out, r.v))

ShowFields(fs, v, xs, st, vs) ==
  IF xs = <<>> THEN Ok([r |-> vs, of |-> v.n], st)
  ELSE LET r == Show(fs, v.f[xs[1].x], st) IN ShowFields(fs, v, Tail(xs), r.st, Append(vs, r.v))

Start(fuel) == [th |-> <<>>, out |-> <<>>, fuel |-> fuel, big |-> FALSE]
Run(fs, main, fuel) ==
  LET r == Apply(fs, [k |-> "top", x |-> main], <<Num(0)>>, Start(fuel)) IN
  IF r.st.big THEN r ELSE Show(fs, r.v, r.st)
=============================================================================
