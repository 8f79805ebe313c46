------------------------------- MODULE PenProg -------------------------------
(* Well-typed modules of Pen, one for every seed, with what their main functions give and print. *)
EXTENDS PenLibrary

CONSTANTS First, Count, Depth, Focus, Fuel

P == 1000003
K(k, i) == (k * 1999 + i * 7349 + 13) % P
Rn(k, n) == ((k * 1663 + 977) % P) % n     \* 0..n-1
One(k, s) == s[Rn(k, Len(s)) + 1]

Types == IF Focus = "lists" THEN <<N, L(N), L(N), L(L(N)), LU, UN, L(N), B, L(S)>>
         ELSE <<N, B, S, Z, L(N), L(S), L(L(N)), MN, MS, R("r"), R("p"), UN, US, UE, UR, A, LU, FN, F0, F2>>
Results == IF Focus = "lists" THEN <<L(N), L(L(N)), LU, N, L(N), UN, L(S)>>
           ELSE <<N, B, S, Z, L(N), L(S), L(L(N)), MN, MS, R("r"), R("p"), UN, US, UE, UE, UR, A, LU>>
Names == <<"x", "y", "z", "xs">>

(* env: variables in the order of their binding; the last of a name is the visible one. *)
Visible(env, t) == SelectSeq([i \in 1..Len(env) |-> IF \A j \in i + 1..Len(env) : env[j].x # env[i].x THEN env[i] ELSE [x |-> "", t |-> Z]],
                             LAMBDA v : v.x # "" /\ v.t = t)
(* The variable of an if-map expression hides outer ones of its name in the second block, too: a known
   finding, kept out of the generated programs. *)
Without(env, x) == SelectSeq(env, LAMBDA v : v.x # x)
Fits(t, u) == t = u \/ u.k = "any" \/ (u.k = "union" /\ \E i \in 1..Len(u.ts) : u.ts[i] = t)
Subtypes(env, t) == SelectSeq([i \in 1..Len(env) |-> IF \A j \in i + 1..Len(env) : env[j].x # env[i].x THEN env[i] ELSE [x |-> "", t |-> FN]],
                              LAMBDA v : v.x # "" /\ Fits(v.t, t))

(* c: what there is: c.fs: functions that can be called; c.r: the result type of the function around;
   c.try: whether `?` can be used here. *)
RECURSIVE Gen(_, _, _, _, _), Leaf(_, _, _, _), Special(_, _, _, _, _), Statements(_, _, _, _, _), GenBlock(_, _, _, _, _),
          GenElements(_, _, _, _, _, _), GenEntries(_, _, _, _, _, _), GenArgs(_, _, _, _, _), GenBranches(_, _, _, _, _, _), GenLam(_, _, _, _, _)

NoTry(c) == [c EXCEPT !.try = FALSE]
Lazy(c) == NoTry(c)

Strings == <<"a", "b", "ab", "">>

GenLam(t, d, env, c, k) ==
  LET ps == [i \in 1..Len(t.ps) |-> Param(IF Len(t.ps) = 2 /\ i = 2 THEN "ys" ELSE One(K(k, 90 + i), Names), t.ps[i])]
  IN [k |-> "lam", ps |-> ps, r |-> t.r, t |-> t, body |-> GenBlock(t.r, d - 1, env \o ps, [c EXCEPT !.try = (t.r = UE), !.r = t.r], K(k, 1))]

Leaf(t, env, c, k) ==
  LET vs == Subtypes(env, t) IN
  IF vs # <<>> /\ Rn(k, 3) > 0 THEN Var(One(K(k, 1), vs).x)
  ELSE CASE t.k = "num" -> IF Rn(K(k, 2), 3) = 0 THEN Call(Top(Tick), <<Effect(Rn(K(k, 3), 9))>>) ELSE Lit(Rn(K(k, 3), 5))
         [] t.k = "bool" -> [k |-> "bool", v |-> Rn(K(k, 2), 2) = 0]
         [] t.k = "str" -> [k |-> "str", v |-> One(K(k, 2), Strings)]
         [] t.k = "none" -> [k |-> "none"]
         [] t.k = "list" -> [k |-> "list", t |-> t.e, es |-> IF Rn(K(k, 2), 2) = 0 THEN <<>> ELSE <<Item(Leaf(t.e, env, Lazy(c), K(k, 3)))>>]
         [] t.k = "map" -> [k |-> "map", kt |-> t.a, vt |-> t.b, es |-> IF Rn(K(k, 2), 3) = 0 THEN <<>> ELSE <<Item(Leaf(t.a, env, c, K(k, 3))) @@ [v |-> Leaf(t.b, env, c, K(k, 4))]>>]
         [] t.k = "rec" -> [k |-> "rec", n |-> t.n, fs |-> [i \in 1..Len(RecordFields[t.n]) |-> [x |-> RecordFields[t.n][i].x, e |-> Leaf(RecordFields[t.n][i].t, env, c, K(k, 10 + i))]]]
         [] t.k = "union" -> Leaf(One(K(k, 2), t.ts), env, c, K(k, 3))
         [] t.k = "any" -> Leaf(One(K(k, 2), Anys), env, c, K(k, 3))
         [] t.k = "fn" -> [k |-> "lam", ps |-> [i \in 1..Len(t.ps) |-> Param(<<"x", "ys">>[i], t.ps[i])], r |-> t.r, t |-> t,
                           body |-> Just(Leaf(t.r, env \o [i \in 1..Len(t.ps) |-> Param(<<"x", "ys">>[i], t.ps[i])], [c EXCEPT !.try = FALSE], K(k, 3)))]
         [] t.k = "err" -> [k |-> "error", e |-> Leaf(One(K(k, 2), <<N, S, Z>>), env, c, K(k, 3))]

GenArgs(ts, d, env, c, k) == [i \in 1..Len(ts) |-> Gen(ts[i], d, env, c, K(k, i))]

GenElements(t, n, d, env, c, k) ==
  IF n = 0 THEN <<>>
  ELSE <<IF Rn(k, 3) = 0 THEN Spread(Gen(L(t), d, env, Lazy(c), K(k, 1))) ELSE Item(Gen(t, d, env, Lazy(c), K(k, 1)))>>
       \o GenElements(t, n - 1, d, env, c, K(k, 2))

GenEntries(t, n, d, env, c, k) ==
  IF n = 0 THEN <<>>
  ELSE <<IF Rn(k, 4) = 0 THEN Spread(Gen(t, d, env, c, K(k, 1))) ELSE Item(Gen(t.a, d, env, c, K(k, 1))) @@ [v |-> Gen(t.b, d, env, c, K(k, 3))]>>
       \o GenEntries(t, n - 1, d, env, c, K(k, 2))

Comprehension(t, d, env, c, k) ==
  LET two == Rn(k, 3) = 0
      u == One(K(k, 1), <<N, N, S, UN>>)
      zip == Rn(K(k, 2), 3) = 0
      v == One(K(k, 3), <<N, L(N)>>)
      cc == Lazy(c)
      b1 == IF two
            THEN [xs |-> <<"ys">>, ls |-> <<Gen(L(L(N)), d - 1, env, cc, K(k, 4))>>, c |-> [k |-> "always"]]
            ELSE [xs |-> IF zip THEN <<"y", "z">> ELSE <<"y">>,
                  ls |-> IF zip THEN <<Gen(L(u), d - 1, env, cc, K(k, 4)), Gen(L(v), d - 1, env, cc, K(k, 5))>> ELSE <<Gen(L(u), d - 1, env, cc, K(k, 4))>>, c |-> [k |-> "always"]]
      env1 == env \o IF two THEN <<Param("ys", F(<<>>, L(N)))>> ELSE IF zip THEN <<Param("y", F(<<>>, u)), Param("z", F(<<>>, v))>> ELSE <<Param("y", F(<<>>, u))>>
      cond(e, i) == IF Rn(K(k, i), 2) = 0 THEN [k |-> "always"] ELSE Gen(B, d - 1, e, cc, K(k, i + 1))
      env2 == env1 \o <<Param("x", F0)>>
      inner == [xs |-> <<"x">>, ls |-> <<IF Rn(K(k, 6), 3) > 0 THEN Call(Var("ys"), <<>>) ELSE Gen(L(N), d - 1, env1, cc, K(k, 7))>>, c |-> cond(env2, 30)]
      first == [b1 EXCEPT !.c = cond(env1, 40)]
  IN [k |-> "comp", t |-> t, bs |-> IF two THEN <<first, inner>> ELSE <<first>>, e |-> Gen(t, d - 1, IF two THEN env2 ELSE env1, cc, K(k, 8))]

Statements(n, d, env, c, k) ==
  IF n = 0 THEN [ss |-> <<>>, env |-> env]
  ELSE LET t == One(k, Types)
           try == c.try /\ Rn(K(k, 5), 2) = 0
           u == IF try THEN N ELSE t
           e == IF try THEN [k |-> "try", e |-> Gen(UE, d, env, c, K(k, 1))] ELSE Gen(t, d, env, c, K(k, 1))
           x == One(K(k, 2), Names)
           r == Statements(n - 1, d, Append(env, Param(x, u)), c, K(k, 3))
       IN [ss |-> <<[x |-> x, t |-> u, e |-> e]>> \o r.ss, env |-> r.env]

GenBlock(t, d, env, c, k) ==
  LET s == Statements(IF d > 0 THEN Rn(k, 3) ELSE 0, d - 1, env, c, K(k, 1))
  IN Block(s.ss, Gen(t, d, s.env, c, K(k, 2)))

(* Branches of if-type expressions on a union: every member once, at random together. *)
GenBranches(ts, t, d, env, c, k) ==
  IF ts = <<>> THEN <<>>
  ELSE LET n == IF Len(ts) > 1 /\ Rn(k, 4) = 0 THEN 2 ELSE 1
           u == IF n = 2 THEN U(<<ts[1], ts[2]>>) ELSE ts[1]
       IN <<[t |-> u, e |-> GenBlock(t, d, Append(env, Param(c.x, u)), c.c, K(k, 1))]>> \o GenBranches(SubSeq(ts, n + 1, Len(ts)), t, d, env, c, K(k, 2))

Rotate(s, n) == [i \in 1..Len(s) |-> s[((i + n) % Len(s)) + 1]]

(* Forms that any type can take. *)
Common(t, d, env, c, k) ==
  LET o == Rn(k, 9)
      b(i) == GenBlock(t, d - 1, env, c, K(k, i))
      x == One(K(k, 20), Names)
  IN CASE o \in {0, 1} -> [k |-> "if", c |-> Gen(B, d - 1, env, c, K(k, 3)), a |-> b(1), b |-> b(2)]
       [] o \in {2, 3} ->
            LET e == One(K(k, 4), <<N, N, S, L(N), UN>>)
                env2 == env \o <<Param("y", F(<<>>, e)), Param("ys", L(e))>>
            IN [k |-> "iflist", l |-> Gen(L(e), d - 1, env, c, K(k, 3)), x |-> "y", xs |-> "ys",
                a |-> GenBlock(t, d - 1, env2, c, K(k, 1)), b |-> b(2)]
       [] o = 4 ->
            LET m == One(K(k, 4), <<MN, MS>>) IN
            [k |-> "ifmap", x |-> x, m |-> Gen(m, d - 1, env, c, K(k, 3)), key |-> Gen(m.a, d - 1, env, c, K(k, 5)),
             a |-> GenBlock(t, d - 1, Append(env, Param(x, m.b)), c, K(k, 1)),
             b |-> GenBlock(t, d - 1, Without(env, x), c, K(k, 2))]
       [] o = 5 ->
            LET u == One(K(k, 4), <<UN, US, UE, UR>>)
                ts == Rotate(u.ts, Rn(K(k, 6), 3))
                all == Rn(K(k, 7), 2) = 0
                n == IF all THEN Len(ts) ELSE Len(ts) - 1
                rest == IF n + 1 = Len(ts) THEN ts[Len(ts)] ELSE U(SubSeq(ts, n + 1, Len(ts)))
            IN [k |-> "iftype", x |-> x, e |-> Gen(u, d - 1, env, c, K(k, 3)), of |-> u,
                bs |-> GenBranches(SubSeq(ts, 1, n), t, d - 1, env, [x |-> x, c |-> c], K(k, 1)),
                else |-> IF all THEN [k |-> "absent"] ELSE GenBlock(t, d - 1, Append(env, Param(x, rest)), c, K(k, 2))]
       [] o = 6 ->
            LET ts == SubSeq(Rotate(<<N, S, R("r"), L(N), B>>, Rn(K(k, 6), 5)), 1, 1 + Rn(K(k, 7), 2))
            IN [k |-> "iftype", x |-> x, e |-> Gen(A, d - 1, env, c, K(k, 3)), of |-> A,
                bs |-> GenBranches(ts, t, d - 1, env, [x |-> x, c |-> c], K(k, 1)), else |-> GenBlock(t, d - 1, Append(env, Param(x, A)), c, K(k, 2))]
       [] o = 7 ->
            LET fs == SelectSeq(c.fs, LAMBDA f : Fits(f.r, t)) IN
            IF fs = <<>> THEN Leaf(t, env, c, K(k, 1))
            ELSE LET f == One(K(k, 1), fs) IN
                 Call(Top(f), [i \in 1..Len(f.ps) |-> IF f.ps[i].x = "n" THEN Effect(Rn(K(k, 60 + i), 5)) ELSE IF f.ps[i].x = "o" THEN Var("o") ELSE Gen(f.ps[i].t, d - 1, env, c, K(k, 70 + i))])
       [] o = 8 ->
            LET fv == SelectSeq(env, LAMBDA v : v.t.k = "fn" /\ Fits(v.t.r, t) /\ Visible(env, v.t) # <<>>) IN
            IF fv = <<>> THEN Leaf(t, env, c, K(k, 1))
            ELSE LET ty == One(K(k, 1), fv).t IN Call(Var(One(K(k, 2), Visible(env, ty)).x), GenArgs(ty.ps, d - 1, env, c, K(k, 3)))

Special(t, d, env, c, k) ==
  LET g(u, i) == Gen(u, d - 1, env, c, K(k, i))
      o == Rn(k, 8)
  IN CASE t.k = "num" ->
            (CASE o \in {0, 1} -> Bin(One(K(k, 3), <<"+", "-", "+", "*">>), g(N, 1), g(N, 2))
               [] o = 2 -> Call(Top(Tick), <<Bin("+", Var("o"), g(N, 1))>>)
               [] o = 3 -> [k |-> "size", e |-> g(One(K(k, 3), <<L(N), L(L(N)), MN, L(S)>>), 1), of |-> One(K(k, 3), <<L(N), L(L(N)), MN, L(S)>>)]
               [] o = 4 -> Call(Top(Sum), <<g(L(N), 1)>>)
               [] o = 5 -> IF c.try THEN [k |-> "try", e |-> g(UE, 1)] ELSE Call(Top(Tick), <<Bin("+", g(N, 1), Var("o"))>>)
               [] o = 6 -> IF Focus = "lists" THEN Call(Top(Sum), <<g(L(N), 1)>>) ELSE [k |-> "field", e |-> g(R("r"), 1), f |-> "a"]
               [] o = 7 -> IF Focus = "lists" THEN Bin("+", g(N, 1), g(N, 2)) ELSE Call(Top(Twice), <<g(FN, 1), g(N, 2)>>))
       [] t.k = "bool" ->
            (CASE o \in {0, 1} -> Bin(One(K(k, 3), <<"<", "<=", ">", ">=">>), g(N, 1), g(N, 2))
               [] o \in {2, 3} -> LET u == One(K(k, 3), IF Focus = "lists" THEN <<L(N), L(N), L(L(N)), LU>> ELSE Comparable) IN
                                  Bin(One(K(k, 4), <<"==", "!=">>), g(u, 1), g(u, 2)) @@ [of |-> u]
               [] o = 4 -> [k |-> "not", a |-> g(B, 1)]
               [] OTHER -> Bin(One(K(k, 3), <<"&", "|">>), g(B, 1), g(B, 2)))
       [] t.k = "str" ->
            (CASE o \in {0, 1, 2} -> Bin("+", g(S, 1), g(S, 2))
               [] o = 3 -> [k |-> "iftype", x |-> "y", e |-> [k |-> "field", e |-> g(R("r"), 1), f |-> "b"], of |-> U(<<S, Z>>),
                            bs |-> <<[t |-> S, e |-> Just(Var("y"))]>>, else |-> Just([k |-> "str", v |-> "z"])]
               [] OTHER -> Leaf(S, env, c, K(k, 1)))
       [] t.k = "none" -> Leaf(Z, env, c, K(k, 1))
       [] t.k = "list" ->
            (CASE o \in {0, 1, 2} -> [k |-> "list", t |-> t.e, es |-> GenElements(t.e, 1 + Rn(K(k, 2), 3), d - 1, env, c, K(k, 1))]
               [] o \in {3, 4} -> Comprehension(t.e, d, env, c, K(k, 1))
               [] o = 5 -> IF t = L(N) THEN Call(Top(Down), <<Effect(Rn(K(k, 1), 5))>>) ELSE [k |-> "list", t |-> t.e, es |-> GenElements(t.e, 2, d - 1, env, c, K(k, 1))]
               [] o = 6 -> IF t = L(N) /\ Focus # "lists" THEN [k |-> "field", e |-> g(R("p"), 1), f |-> "q"] ELSE Comprehension(t.e, d, env, c, K(k, 1))
               [] OTHER -> [k |-> "list", t |-> t.e, es |-> <<Spread(Gen(t, d - 1, env, Lazy(c), K(k, 1))), Spread(Gen(t, d - 1, env, Lazy(c), K(k, 2)))>>])
       [] t.k = "map" ->
            (CASE o \in {0, 1} -> [k |-> "delete", m |-> g(t, 1), key |-> g(t.a, 2), of |-> t]
               [] OTHER -> [k |-> "map", kt |-> t.a, vt |-> t.b, es |-> GenEntries(t, 1 + Rn(K(k, 2), 3), d - 1, env, c, K(k, 1))])
       [] t.k = "rec" ->
            LET fs == RecordFields[t.n]
                f(i) == [x |-> fs[i].x, e |-> g(fs[i].t, 10 + i)]
            IN (CASE o \in {0, 1, 2} -> [k |-> "upd", n |-> t.n, e |-> g(t, 1), fs |-> <<f(1 + Rn(K(k, 4), 2))>>]
                  [] o = 3 /\ t.n = "r" -> [k |-> "field", e |-> g(R("p"), 1), f |-> "r"]
                  [] OTHER -> [k |-> "rec", n |-> t.n, fs |-> IF Rn(K(k, 4), 2) = 0 THEN <<f(1), f(2)>> ELSE <<f(2), f(1)>>])
       [] t.k = "union" ->
            IF t = U(<<S, Z>>) /\ o = 0 THEN [k |-> "field", e |-> g(R("r"), 1), f |-> "b"]
            ELSE IF t = UE /\ o \in {0, 1} THEN Call(Top(Pick), <<g(L(N), 1), Lit(Rn(K(k, 2), 3))>>)
            ELSE Gen(One(K(k, 2), t.ts), d - 1, env, c, K(k, 3))
       [] t.k = "any" -> IF o = 0 THEN [k |-> "source", e |-> g(E, 1)] ELSE Gen(One(K(k, 2), Anys), d - 1, env, c, K(k, 3))
       [] t.k = "fn" ->
            LET tops == SelectSeq(c.fs, LAMBDA f : F([i \in 1..Len(f.ps) |-> f.ps[i].t], f.r) = t) IN
            IF tops # <<>> /\ o \in {0, 1} THEN Top(One(K(k, 1), tops)) ELSE GenLam(t, d, env, c, K(k, 1))
       [] t.k = "err" -> [k |-> "error", e |-> g(One(K(k, 2), <<N, S, UN, A>>), 1)]

Gen(t, d, env, c, k) ==
  IF d <= 0 THEN Leaf(t, env, c, k)
  ELSE LET o == Rn(k, 10) IN
       IF o < 2 /\ Subtypes(env, t) # <<>> THEN Var(One(K(k, 1), Subtypes(env, t)).x)
       ELSE IF o < 5 THEN Common(t, d, env, c, K(k, 2))
       ELSE IF o = 5 THEN Leaf(t, env, c, K(k, 3))
       ELSE Special(t, d, env, c, K(k, 4))

Function(i, fs, k) ==
  LET np == Rn(K(k, 1), 3)
      ps == [j \in 1..np |-> Param(Names[j], One(K(k, 10 + j), Types))]
      qs == <<Param("o", N)>> \o IF i = 0 THEN <<>> ELSE ps
      r == One(K(k, 2), Results)
      t == IF i = 0 THEN One(K(k, 2), Results) ELSE r
  IN [x |-> IF i = 0 THEN "Main" ELSE "f" \o ToString(i), ps |-> qs, r |-> t,
      body |-> GenBlock(t, Depth, qs, [fs |-> fs, r |-> t, try |-> t = UE], K(k, 3))]

Program(seed) ==
  LET k == K(K(seed, 5), 77)
      f1 == Function(1, Library, K(k, 1))
      f2 == Function(2, Append(Library, f1), K(k, 2))
      main == Function(0, Library \o <<f1, f2>>, K(k, 3))
  IN Library \o <<f1, f2, main>>

VARIABLE seed, done
vars == <<seed, done>>
Init == seed \in First..First + Count - 1 /\ done = FALSE
Next ==
  /\ ~done
  /\ LET p == Program(seed)
         r == Run(Table(p), "Main", Fuel)
     IN PrintT("@@" \o ToJson([seed |-> seed, p |-> SubSeq(p, 6, 8), big |-> r.st.big, v |-> IF r.st.big THEN 0 ELSE r.v, out |-> IF r.st.big THEN <<>> ELSE r.st.out]))
  /\ done' = TRUE /\ seed' = seed
Spec == Init /\ [][Next]_vars
=============================================================================
