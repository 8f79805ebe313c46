------------------------------ MODULE PenTypes ------------------------------
(* Which modules are well typed: types, subtypes, and the rule of every form of expression. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

N == [k |-> "num"]
B == [k |-> "bool"]
S == [k |-> "str"]
Z == [k |-> "none"]
A == [k |-> "any"]
E == [k |-> "err"]
L(e) == [k |-> "list", e |-> e]
M(a, b) == [k |-> "map", a |-> a, b |-> b]
R(n) == [k |-> "rec", n |-> n]
U(ts) == [k |-> "union", ts |-> ts]
F(ps, r) == [k |-> "fn", ps |-> ps, r |-> r]
Alias(n) == [k |-> "alias", n |-> n]

(* d.al: what aliases stand for; d.rs: the fields of records. *)
Set(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Refers(_), Mentions(_), Norm(_, _), Fine(_, _), Comparable(_, _, _), Needs(_, _), Reach(_, _)

(* Names of types in a type. *)
Mentions(t) ==
  CASE t.k \in {"alias", "rec"} -> {t.n}
    [] t.k = "list" -> Mentions(t.e)
    [] t.k = "map" -> Mentions(t.a) \cup Mentions(t.b)
    [] t.k = "union" -> UNION {Mentions(t.ts[i]) : i \in DOMAIN t.ts}
    [] t.k = "fn" -> Mentions(t.r) \cup UNION {Mentions(t.ps[i]) : i \in DOMAIN t.ps}
    [] OTHER -> {}
Refers(t) == Mentions(t)
Reach(d, s) == LET n == s \cup UNION {Mentions(d.al[a]) \cap DOMAIN d.al : a \in s} IN IF n = s THEN s ELSE Reach(d, n)
Circular(d) == \E a \in DOMAIN d.al : a \in Reach(d, Mentions(d.al[a]) \cap DOMAIN d.al)

(* Types as what they are: no aliases, unions as sets of other types. *)
Members(t) == IF t.k = "union" THEN t.ms ELSE {t}
Union(ms) == IF A \in ms THEN A ELSE IF Cardinality(ms) = 1 THEN CHOOSE m \in ms : TRUE ELSE [k |-> "union", ms |-> ms]
Norm(d, t) ==
  CASE t.k \in {"alias", "rec"} -> IF t.n \in DOMAIN d.al THEN Norm(d, d.al[t.n]) ELSE R(t.n)
    [] t.k = "list" -> L(Norm(d, t.e))
    [] t.k = "map" -> M(Norm(d, t.a), Norm(d, t.b))
    [] t.k = "union" -> Union(UNION {Members(Norm(d, t.ts[i])) : i \in DOMAIN t.ts})
    [] t.k = "fn" -> F([i \in DOMAIN t.ps |-> Norm(d, t.ps[i])], Norm(d, t.r))
    [] OTHER -> t
Or(a, b) == Union(Members(a) \cup Members(b))
Sub(a, b) == b = A \/ Members(a) \subseteq Members(b)

Comparable(d, t, seen) ==
  CASE t.k \in {"any", "err", "fn"} -> FALSE
    [] t.k = "list" -> Comparable(d, t.e, seen)
    [] t.k = "map" -> Comparable(d, t.a, seen) /\ Comparable(d, t.b, seen)
    [] t.k = "union" -> \A m \in t.ms : Comparable(d, m, seen)
    [] t.k = "rec" -> t.n \in seen \/ \A i \in DOMAIN d.rs[t.n] : Comparable(d, Norm(d, d.rs[t.n][i].t), seen \cup {t.n})
    [] OTHER -> TRUE

(* Types that can be written: their names are defined, and the keys of maps can be compared. *)
Fine(d, t) ==
  /\ Mentions(t) \subseteq DOMAIN d.al \cup DOMAIN d.rs
  /\ CASE t.k = "list" -> Fine(d, t.e)
       [] t.k = "map" -> Fine(d, t.a) /\ Fine(d, t.b) /\ Comparable(d, Norm(d, t.a), {})
       [] t.k = "union" -> \A i \in DOMAIN t.ts : Fine(d, t.ts[i])
       [] t.k = "fn" -> Fine(d, t.r) /\ \A i \in DOMAIN t.ps : Fine(d, t.ps[i])
       [] OTHER -> TRUE

(* Records that can be made without one of their own kind at hand. *)
Makeable(d, t, s) == \E m \in Members(Norm(d, t)) : m.k # "rec" \/ m.n \in s
Needs(d, s) ==
  LET n == {r \in DOMAIN d.rs : \A i \in DOMAIN d.rs[r] : Makeable(d, d.rs[r][i].t, s)} IN IF n = s THEN s ELSE Needs(d, n)

-----------------------------------------------------------------------------
(* Types of expressions, or why there is none; "?" where it is left open. rt: the result type of the
   function around, [k |-> "list"...] never: inside of a list there is none ("nil"). *)
Bad(why) == [k |-> "bad", why |-> why]
Open == Bad("?")
IsBad(t) == t.k = "bad"
(* t, unless one of ts is wrong *)
Given(ts, t) ==
  LET bad == {i \in DOMAIN ts : IsBad(ts[i]) /\ ts[i].why # "?"}
      left == {i \in DOMAIN ts : IsBad(ts[i])}
  IN IF bad # {} THEN ts[CHOOSE i \in bad : \A j \in bad : i <= j] ELSE IF left # {} THEN Open ELSE t
Nil == [k |-> "nil"]
(* fine, if types are; else the mistake *)
Must(ok, why) == IF ok THEN Nil ELSE Bad(why)
Fits(a, b) == IF IsBad(a) THEN Nil ELSE Must(Sub(a, b), "subtype")

RECURSIVE Ty(_, _, _, _), Statements(_, _, _, _, _), Clauses(_, _, _, _, _)

Function(d, f) == Norm(d, F([i \in DOMAIN f.ps |-> f.ps[i].t], f.r))
Distinct(xs) == \A i, j \in DOMAIN xs : i # j => xs[i] # xs[j]
Params(d, ps) == [x \in {ps[i].x : i \in DOMAIN ps} |-> Norm(d, ps[CHOOSE i \in DOMAIN ps : ps[i].x = x].t)]

Lambda(d, env, f) ==
  IF ~(Fine(d, f.r) /\ \A i \in DOMAIN f.ps : Fine(d, f.ps[i].t)) THEN Bad("type")
  ELSE LET t == Ty(d, Params(d, f.ps) @@ env, f.body, Norm(d, f.r))
       IN Given(<<t, Fits(t, Norm(d, f.r)), IF Distinct([i \in DOMAIN f.ps |-> f.ps[i].x]) THEN Nil ELSE Open>>, Function(d, f))

Statements(d, env, ss, e, rt) ==
  IF ss = <<>> THEN Ty(d, env, e, rt)
  ELSE LET t == Ty(d, env, ss[1].e, rt) IN
       IF IsBad(t) THEN (IF t.why # "?" THEN t ELSE Open)
       ELSE IF ss[1].x = "" THEN (IF t # A /\ E \in Members(t) THEN Bad("unused error") ELSE Statements(d, env, Tail(ss), e, rt))
       ELSE Statements(d, ss[1].x :> t @@ env, Tail(ss), e, rt)

(* The clauses of a comprehension, the outermost first, and its element. *)
Clauses(d, env, bs, e, t) ==
  IF bs = <<>> THEN LET u == Ty(d, env, e, Nil) IN Given(<<u, Fits(u, t)>>, L(t))
  ELSE LET b == bs[1]
           ls == [i \in DOMAIN b.ls |-> Ty(d, env, b.ls[i], Nil)]
           lists == [i \in DOMAIN ls |-> IF IsBad(ls[i]) THEN ls[i] ELSE Must(ls[i].k = "list", "list")]
       IN IF Len(b.xs) # Len(b.ls) THEN Bad("iteratees")
          ELSE IF \E i \in DOMAIN lists : IsBad(lists[i]) THEN Given(lists, Nil)
          ELSE LET env2 == [x \in Set(b.xs) |-> F(<<>>, ls[CHOOSE i \in DOMAIN b.xs : b.xs[i] = x].e)] @@ env
                   c == IF b.c.k = "always" THEN Nil ELSE LET ct == Ty(d, env2, b.c, Nil) IN IF IsBad(ct) THEN ct ELSE Must(ct = B, "condition")
               IN Given(<<c, IF Distinct(b.xs) THEN Nil ELSE Open, Clauses(d, env2, Tail(bs), e, t)>>, L(t))

(* Calls of what is built in. *)
BuiltIn(f, ts) ==
  LET one == Len(ts) = 1 IN
  CASE f = "size" -> IF one /\ ts[1].k \in {"list", "map"} THEN N ELSE Bad("size")
    [] f = "keys" -> IF one /\ ts[1].k = "map" THEN L(ts[1].a) ELSE Bad("keys")
    [] f = "values" -> IF one /\ ts[1].k = "map" THEN L(ts[1].b) ELSE Bad("values")
    [] f = "delete" -> IF Len(ts) = 2 /\ ts[1].k = "map" THEN (IF Sub(ts[2], ts[1].a) THEN ts[1] ELSE Bad("key")) ELSE Bad("delete")
    [] f = "error" -> IF one THEN E ELSE Bad("arguments")
    [] f = "debug" -> IF one THEN Z ELSE Bad("arguments")
    [] f = "source" -> IF one /\ ts[1] = E THEN A ELSE Bad("source")
    [] f = "go" -> IF one /\ ts[1].k = "fn" THEN (IF ts[1].ps = <<>> THEN ts[1] ELSE Bad("arguments of a spawned function")) ELSE Bad("go")
    [] f = "race" -> IF one /\ ts[1].k = "list" THEN (IF ts[1].e.k = "list" THEN ts[1].e ELSE Bad("race")) ELSE Bad("race")

Record(d, n) == LET t == Norm(d, Alias(n)) IN IF ~Fine(d, Alias(n)) THEN Bad("name of a type") ELSE IF t.k = "rec" THEN t ELSE Bad("record")
FieldType(d, r, x) ==
  LET fs == d.rs[r.n]
      s == {i \in DOMAIN fs : fs[i].x = x}
  IN IF s = {} THEN Bad("field") ELSE Norm(d, fs[CHOOSE i \in s : TRUE].t)
(* Fields given for a record. *)
Fields(d, env, r, fs, rt) ==
  [i \in DOMAIN fs |-> LET want == FieldType(d, r, fs[i].x)
                           t == Ty(d, env, fs[i].e, rt)
                       IN IF IsBad(want) THEN want ELSE Given(<<t, Fits(t, want)>>, t)]

Ty(d, env, e, rt) ==
  LET T(x) == Ty(d, env, x, rt) IN
  CASE e.k = "num" -> N
    [] e.k = "bool" -> B
    [] e.k = "str" -> S
    [] e.k = "none" -> Z
    [] e.k \in {"var", "top"} -> IF e.x \in DOMAIN env THEN env[e.x] ELSE Bad("name")
    [] e.k = "bin" ->
         LET a == T(e.a)
             b == T(e.b)
         IN Given(<<a, b>>,
              CASE e.op = "+" -> IF a = N /\ b = N THEN N ELSE IF a = S /\ b = S THEN S ELSE Bad("addition")
                [] e.op \in {"-", "*", "/"} -> IF a = N /\ b = N THEN N ELSE Bad("arithmetic")
                [] e.op \in {"<", "<=", ">", ">="} -> IF a = N /\ b = N THEN B ELSE Bad("order")
                [] e.op \in {"&", "|"} -> IF a = B /\ b = B THEN B ELSE Bad("boolean")
                [] e.op \in {"==", "!="} -> IF IsBad(a) \/ IsBad(b) THEN Nil
                                            ELSE IF ~(Sub(a, b) \/ Sub(b, a)) THEN Bad("equality")
                                            ELSE IF Comparable(d, Or(a, b), {}) THEN B ELSE Bad("comparable"))
    [] e.k = "not" -> LET a == T(e.a) IN Given(<<a>>, IF a = B THEN B ELSE Bad("boolean"))
    [] e.k = "if" ->
         LET c == T(e.c)
             a == T(e.a)
             b == T(e.b)
         IN Given(<<c, IF IsBad(c) THEN c ELSE Must(c = B, "condition"), a, b>>, IF IsBad(a) \/ IsBad(b) THEN Nil ELSE Or(a, b))
    [] e.k = "iflist" ->
         LET l == T(e.l) IN
         IF IsBad(l) THEN l
         ELSE IF l.k # "list" THEN Bad("list")
         ELSE LET a == Ty(d, (e.x :> F(<<>>, l.e)) @@ (e.xs :> l) @@ env, e.a, rt)
                  b == T(e.b)
              IN Given(<<a, b, IF e.x = e.xs THEN Open ELSE Nil>>, IF IsBad(a) \/ IsBad(b) THEN Nil ELSE Or(a, b))
    [] e.k = "ifmap" ->
         LET m == T(e.m)
             key == T(e.key)
         IN IF IsBad(m) THEN m
            ELSE IF m.k # "map" THEN Bad("map")
            ELSE LET a == Ty(d, (e.x :> m.b) @@ env, e.a, rt)
                     b == T(e.b)
                 IN Given(<<key, Fits(key, m.a), a, b>>, IF IsBad(a) \/ IsBad(b) THEN Nil ELSE Or(a, b))
    [] e.k = "iftype" ->
         LET v == T(e.e)
             ns == [i \in DOMAIN e.bs |-> Norm(d, e.bs[i].t)]
             fine == \A i \in DOMAIN e.bs : Fine(d, e.bs[i].t)
         IN IF IsBad(v) THEN v
            ELSE IF ~fine THEN Bad("type")
            ELSE IF v.k \notin {"union", "any"} THEN Bad("union")
            ELSE IF \E i \in DOMAIN ns : ns[i] = A \/ ~Sub(ns[i], v) THEN Bad("branch")
            ELSE LET all == UNION {Members(ns[i]) : i \in DOMAIN ns}
                     as == [i \in DOMAIN e.bs |-> Ty(d, (e.x :> ns[i]) @@ env, e.bs[i].e, rt)]
                     left == Members(v) \ all
                     overlap == \E i, j \in DOMAIN ns : i < j /\ Members(ns[i]) \cap Members(ns[j]) # {}
                     over == IF overlap THEN Open ELSE Nil
                 IN IF e.else.k = "absent"
                    THEN Given(as \o <<Must(left = {}, "no else"), over>>, IF \E i \in DOMAIN as : IsBad(as[i]) THEN Nil ELSE Union(UNION {Members(as[i]) : i \in DOMAIN as}))
                    ELSE IF left = {} THEN Bad("unreachable")
                    ELSE LET b == Ty(d, (e.x :> Union(left)) @@ env, e.else, rt)
                         IN Given(as \o <<b, over>>, IF IsBad(b) \/ \E i \in DOMAIN as : IsBad(as[i]) THEN Nil ELSE Union(Members(b) \cup UNION {Members(as[i]) : i \in DOMAIN as}))
    [] e.k = "call" ->
         LET f == T(e.f)
             ts == [i \in DOMAIN e.as |-> T(e.as[i])]
         IN IF IsBad(f) THEN f
            ELSE IF f.k # "fn" THEN Bad("function")
            ELSE IF Len(f.ps) # Len(ts) THEN Bad("arguments")
            ELSE Given(ts \o [i \in DOMAIN ts |-> Fits(ts[i], f.ps[i])], f.r)
    [] e.k = "built" -> LET ts == [i \in DOMAIN e.as |-> T(e.as[i])] IN Given(ts, IF \E i \in DOMAIN ts : IsBad(ts[i]) THEN Nil ELSE BuiltIn(e.f, ts))
    [] e.k \in {"size", "keys", "values", "error", "source"} -> LET t == T(e.e) IN IF IsBad(t) THEN t ELSE BuiltIn(e.k, <<t>>)
    [] e.k = "delete" -> LET m == T(e.m)
                             key == T(e.key)
                         IN Given(<<m, key>>, IF IsBad(m) \/ IsBad(key) THEN Nil ELSE BuiltIn("delete", <<m, key>>))
    [] e.k = "lam" -> Lambda(d, env, e)
    [] e.k = "block" -> Statements(d, env, e.ss, e.e, rt)
    [] e.k = "list" ->
         IF ~Fine(d, e.t) THEN Bad("type")
         ELSE LET t == Norm(d, e.t)
                  ts == [i \in DOMAIN e.es |-> Ty(d, env, e.es[i].e, Nil)]
                  fit(i) == IF IsBad(ts[i]) THEN Nil
                            ELSE IF e.es[i].m THEN (IF ts[i].k = "list" THEN Fits(ts[i].e, t) ELSE Bad("list")) ELSE Fits(ts[i], t)
              IN Given(ts \o [i \in DOMAIN ts |-> fit(i)], L(t))
    [] e.k = "comp" -> IF Fine(d, e.t) THEN Clauses(d, env, e.bs, e.e, Norm(d, e.t)) ELSE Bad("type")
    [] e.k = "map" ->
         IF ~Fine(d, [k |-> "map", a |-> e.kt, b |-> e.vt]) THEN Bad("type")
         ELSE LET kt == Norm(d, e.kt)
                  vt == Norm(d, e.vt)
                  one(i) == LET x == e.es[i]
                                t == T(x.e)
                            IN IF IsBad(t) THEN t
                               ELSE IF x.m THEN (IF t.k # "map" THEN Bad("map") ELSE Given(<<Fits(t.a, kt), Fits(t.b, vt)>>, Nil))
                               ELSE LET v == T(x.v) IN Given(<<v, Fits(t, kt), Fits(v, vt)>>, Nil)
              IN Given([i \in DOMAIN e.es |-> one(i)], M(kt, vt))
    [] e.k = "rec" ->
         LET r == Record(d, e.n) IN
         IF IsBad(r) THEN r
         ELSE Given(Fields(d, env, r, e.fs, rt)
                    \o <<Must(Distinct([i \in DOMAIN e.fs |-> e.fs[i].x]), "fields"),
                         Must({d.rs[r.n][i].x : i \in DOMAIN d.rs[r.n]} \subseteq {e.fs[i].x : i \in DOMAIN e.fs}, "missing field")>>, r)
    [] e.k = "upd" ->
         LET r == Record(d, e.n)
             t == T(e.e)
         IN IF IsBad(r) THEN r
            ELSE Given(<<t, Fits(t, r)>> \o Fields(d, env, r, e.fs, rt)
                       \o <<Must(e.fs # <<>> /\ Distinct([i \in DOMAIN e.fs |-> e.fs[i].x]), "fields")>>, r)
    [] e.k = "field" -> LET t == T(e.e) IN IF IsBad(t) THEN t ELSE IF t.k # "rec" THEN Bad("record") ELSE FieldType(d, t, e.f)
    [] e.k = "try" ->
         LET t == T(e.e) IN
         IF IsBad(t) THEN t
         ELSE IF rt = Nil THEN Bad("try in a list")
         ELSE IF t.k # "union" \/ E \notin Members(t) THEN Bad("try")
         ELSE IF ~(rt = A \/ (rt.k = "union" /\ E \in Members(rt))) THEN Bad("try in a function")
         ELSE Union(Members(t) \ {E})

-----------------------------------------------------------------------------
(* Modules: m.al: aliases [x, t]; m.rs: records [x, fs: [x, t]]; m.fs: functions. *)
Table(s, V(_)) == [x \in {s[i].x : i \in DOMAIN s} |-> V(s[CHOOSE i \in DOMAIN s : s[i].x = x])]
Verdict(m) ==
  LET AliasOf(a) == a.t
      FieldsOf(r) == r.fs
      d == [al |-> Table(m.al, AliasOf), rs |-> Table(m.rs, FieldsOf)]
      names == [i \in DOMAIN m.al |-> m.al[i].x] \o [i \in DOMAIN m.rs |-> m.rs[i].x]
      undefined == \E t \in {m.al[i].t : i \in DOMAIN m.al} \cup UNION {{m.rs[i].fs[j].t : j \in DOMAIN m.rs[i].fs} : i \in DOMAIN m.rs} : ~(Mentions(t) \subseteq Set(names))
      keys == \E t \in {m.al[i].t : i \in DOMAIN m.al} \cup UNION {{m.rs[i].fs[j].t : j \in DOMAIN m.rs[i].fs} : i \in DOMAIN m.rs} : ~Fine(d, t)
      global == Table(m.fs, LAMBDA f : Function(d, f))
      ts == [i \in DOMAIN m.fs |-> Lambda(d, global, m.fs[i])]
      made == Needs(d, {})
  IN IF ~Distinct(names) THEN "names of types"
     ELSE IF \E i \in DOMAIN m.rs : ~Distinct([j \in DOMAIN m.rs[i].fs |-> m.rs[i].fs[j].x]) THEN "fields of a type"
     ELSE IF ~Distinct([i \in DOMAIN m.fs |-> m.fs[i].x]) THEN "names of functions"
     ELSE IF undefined THEN "undefined types"
     ELSE IF Circular(d) THEN "circular alias"
     ELSE IF keys THEN "keys"
     ELSE IF \E r \in DOMAIN d.rs : r \notin made
          THEN (IF \A r \in DOMAIN d.rs : \A i \in DOMAIN d.rs[r] : Norm(d, d.rs[r][i].t).k # "union" THEN "impossible record" ELSE "?")
     ELSE IF \E i \in DOMAIN m.fs : ~(Fine(d, m.fs[i].r) /\ \A j \in DOMAIN m.fs[i].ps : Fine(d, m.fs[i].ps[j].t)) THEN "type"
     ELSE LET t == Given(ts, Nil) IN IF IsBad(t) THEN t.why ELSE "ok"
=============================================================================
