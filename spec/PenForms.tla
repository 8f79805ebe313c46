------------------------------- MODULE PenForms -------------------------------
(* Families of small modules, each enumerated in full: the forms of expressions with every choice of what
   is in them, with what they give and print. *)
EXTENDS PenLibrary

CONSTANTS Families,   \* which families
          Step,       \* 1: all modules; 2: some of the larger families
          Offset,
          Fuel

(* Digits of i in mixed bases, and the i-th sequence over 0..m-1, the shorter ones first. *)
RECURSIVE Digits(_, _), Product(_), SeqOf(_, _), Perm(_, _)
Digits(i, bs) == IF bs = <<>> THEN <<>> ELSE <<i % bs[1]>> \o Digits(i \div bs[1], Tail(bs))
Product(bs) == IF bs = <<>> THEN 1 ELSE bs[1] * Product(Tail(bs))
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>
Perm(i, s) == IF s = <<>> THEN <<>>
              ELSE LET j == (i % Len(s)) + 1 IN <<s[j]>> \o Perm(i \div Len(s), SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s)))
Choose(s, d) == s[d + 1]

TickOf(e) == Call(Top(Tick), <<e>>)
T(n) == TickOf(Effect(n))
BoolT(v, n) == Bin(IF v THEN ">=" ELSE "<", T(n), Lit(0))
List(t, es) == [k |-> "list", t |-> t, es |-> es]
Items(t, es) == List(t, [i \in 1..Len(es) |-> Item(es[i])])
Let(x, t, e) == [x |-> x, t |-> t, e |-> e]
If(c, a, b) == [k |-> "if", c |-> c, a |-> a, b |-> b]
IfList(l, x, xs, a, b) == [k |-> "iflist", l |-> l, x |-> x, xs |-> xs, a |-> a, b |-> b]
IfMap(x, m, key, a, b) == [k |-> "ifmap", x |-> x, m |-> m, key |-> key, a |-> a, b |-> b]
IfType(x, e, of, bs, else) == [k |-> "iftype", x |-> x, e |-> e, of |-> of, bs |-> bs, else |-> else]
Absent == [k |-> "absent"]
NoneE == [k |-> "none"]
StrE(s) == [k |-> "str", v |-> s]
BoolE(b) == [k |-> "bool", v |-> b]
Not(e) == [k |-> "not", a |-> e]
Size1(e) == [k |-> "size", e |-> e, of |-> Z]
Rec(n, fs) == [k |-> "rec", n |-> n, fs |-> fs]
Upd(n, e, fs) == [k |-> "upd", n |-> n, e |-> e, fs |-> fs]
Fd(x, e) == [x |-> x, e |-> e]
Get(e, f) == [k |-> "field", e |-> e, f |-> f]
Map(a, b, es) == [k |-> "map", kt |-> a, vt |-> b, es |-> es]
Entry(key, v) == Item(key) @@ [v |-> v]
Lam(ps, r, body) == [k |-> "lam", ps |-> ps, r |-> r, t |-> F([i \in 1..Len(ps) |-> ps[i].t], r), body |-> body]
Try(e) == [k |-> "try", e |-> e]
Err(e) == [k |-> "error", e |-> e]
Compared(op, a, b, t) == Bin(op, a, b) @@ [of |-> t]
O == Var("o")

Form(r, body) == [r |-> r, body |-> body, fs |-> <<>>]
FormWith(r, body, fs) == [r |-> r, body |-> body, fs |-> fs]

-----------------------------------------------------------------------------
(* Trees of boolean operations with effects in their leaves. *)
BoolOps == <<"&", "|", "==", "!=">>
BoolForm(d) ==
  LET l(i) == BoolT(d[i + 3] = 1, i)
      op(i, a, b) == Compared(Choose(BoolOps, d[i + 1]), a, b, B)
      n(j, e) == IF d[7] = j THEN Not(e) ELSE e
  IN Form(B, Just(n(1, IF d[1] = 0 THEN op(1, n(2, op(2, l(1), l(2))), n(3, l(3))) ELSE op(1, n(3, l(1)), n(2, op(2, l(2), l(3)))))))

(* Trees of arithmetic operations and an order, or alternatives in operands. *)
NumOps == <<"+", "-", "*">>
Orders == <<"<", "<=", ">", ">=", "==", "!=">>
NumForm(d) ==
  LET c == Choose(<< <<1, 2, 3>>, <<3, 0, 4>>, <<2, 2, 1>> >>, d[4])
      l(i) == IF d[5] = i THEN If(BoolT(c[i] > 1, 10), Just(T(c[i])), Block(<<Let("z", N, T(20))>>, Bin("+", Var("z"), Lit(c[i])))) ELSE T(c[i])
      op(i, a, b) == Bin(Choose(NumOps, d[i + 1]), a, b)
      e == IF d[1] = 0 THEN op(1, op(2, l(1), l(2)), l(3)) ELSE op(1, l(1), op(2, l(2), l(3)))
  IN IF d[6] = 6 THEN Form(N, Just(e)) ELSE Form(B, Just(Compared(Choose(Orders, d[6]), e, T(4), N)))

(* Else-ifs. *)
ChainForm(d) ==
  LET b(n) == IF d[4] = 1 THEN Block(<<Let("z", N, T(20 + n))>>, Bin("+", Var("z"), O)) ELSE Just(T(10 + n))
  IN Form(N, Block(<<Let("y", N, If(BoolT(d[1] = 1, 1), b(1), Just(If(BoolT(d[2] = 1, 2), b(2), Just(If(BoolT(d[3] = 1, 3), b(3), b(4)))))))>>,
                   IF d[5] = 1 THEN Bin("+", Var("y"), T(30)) ELSE Var("y")))

-----------------------------------------------------------------------------
(* Literals of lists, and what is done with them. *)
ListItem(c, i) ==
  CASE c = 0 -> Item(T(i)) [] c = 1 -> Spread(Call(Top(Down), <<Effect(1)>>)) [] c = 2 -> Spread(Call(Top(Down), <<Effect(2)>>))
    [] c = 3 -> Spread(List(N, <<>>)) [] c = 4 -> Item(Lit(i))
Consume(l, d) ==
  LET first == Call(Var("x"), <<>>)
      none == Just(Lit(99))
      xs == Var("l")
      with(r, e) == [r |-> r, b |-> Block(<<Let("l", L(N), l)>>, e)]
      just(r, e) == [r |-> r, b |-> Just(e)]
  IN CASE d = 0 -> just(L(N), l)
       [] d = 1 -> just(N, IfList(l, "x", "xs", Just(first), none))
       [] d = 2 -> just(N, IfList(l, "x", "xs", Just(IfList(Var("xs"), "x", "xs", Just(first), Just(T(30)))), none))
       [] d = 3 -> just(N, Size1(l))
       [] d = 4 -> with(N, T(5))
       [] d = 5 -> just(UE, Call(Top(Pick), <<l, Lit(1)>>))
       [] d = 6 -> with(N, Bin("+", Call(Top(Sum), <<xs>>), Call(Top(Sum), <<xs>>)))
       [] d = 7 -> with(N, IfList(xs, "x", "xs", Just(Bin("+", first, Bin("*", first, Call(Top(Sum), <<Var("xs")>>)))), none))
       [] d = 8 -> just(L(N), IfList(l, "x", "xs", Just(Var("xs")), Just(List(N, <<>>))))
       [] d = 9 -> just(N, IfList(l, "x", "xs", Just(T(31)), Just(T(32))))
       [] d = 10 -> with(B, Compared("==", xs, xs, L(N)))
       [] d = 11 -> with(L(N), List(N, <<Spread(xs), Item(T(33)), Spread(xs)>>))
       [] d = 12 -> just(L(N), [k |-> "comp", t |-> N, e |-> Call(Var("x"), <<>>), bs |-> <<[xs |-> <<"x">>, ls |-> <<l>>, c |-> [k |-> "always"]]>>])
Consumers == 13
ListForm(d) ==
  LET s == SeqOf(d[1], 5)
      c == Consume(List(N, [i \in 1..Len(s) |-> ListItem(s[i], i)]), d[2])
  IN Form(c.r, c.b)

(* A list compared with every one of up to three elements. *)
Element2(t, b) ==
  CASE t = N -> T(b)
    [] t = UN -> IF b = 0 THEN T(0) ELSE NoneE
    [] t = L(N) -> IF b = 0 THEN List(N, <<>>) ELSE Items(N, <<T(7)>>)
    [] t = R("t") -> Rec("t", <<Fd("z", T(b)), Fd("a", O), Fd("m", T(5))>>)
    [] t = S -> StrE(Choose(<<"a", "b">>, b))
ListOf(t, i) == LET s == SeqOf(i, 2) IN Items(t, [j \in 1..Len(s) |-> Element2(t, s[j])])
ListEqualForm(d) ==
  LET t == Choose(<<N, UN, L(N), R("t"), S>>, d[2]) IN
  Form(L(B), Just(Items(B, [i \in 1..15 |-> Compared(IF d[3] = 0 THEN "==" ELSE "!=", ListOf(t, d[1]), ListOf(t, i - 1), L(t))])))

-----------------------------------------------------------------------------
(* Comprehensions. *)
Ticks(from, n) == Items(N, [i \in 1..n |-> T(from + i)])
CompForm(d) ==
  LET x == Call(Var("x"), <<>>)
      y == Call(Var("y"), <<>>)
      zip == d[2] > 0
      c == CASE d[3] = 0 -> [k |-> "always"]
             [] d[3] \in 1..3 -> Compared("!=", x, Effect(d[3]), N)
             [] d[3] = 4 -> Compared("==", x, Effect(2), N)
             [] d[3] = 5 -> Bin("<", IF zip THEN Bin("-", y, Lit(3)) ELSE T(1), x)
             [] d[3] = 6 -> BoolT(FALSE, 8)
      e == CASE d[5] = 0 -> IF zip THEN Bin("+", x, Bin("*", y, Lit(10))) ELSE Bin("+", x, Lit(10)) [] d[5] = 1 -> T(9)
      l == [k |-> "comp", t |-> N, e |-> e,
            bs |-> <<[xs |-> IF zip THEN <<"x", "y">> ELSE <<"x">>, ls |-> IF zip THEN <<Ticks(0, d[1]), Ticks(4, d[2] - 1)>> ELSE <<Ticks(0, d[1])>>, c |-> c]>>]
      r == Consume(l, Choose(<<0, 1, 2, 3, 6, 8>>, d[4]))
  IN Form(r.r, r.b)

CompTwiceForm(d) ==
  LET x == Call(Var("x"), <<>>)
      ys == Call(Var("ys"), <<>>)
      y == Call(Var("y"), <<>>)
      s == SeqOf(d[1], 3)
      lists == Items(L(N), [i \in 1..Len(s) |-> Ticks(i * 3, s[i])])
      independent == d[2] = 1
      co == Choose(<<[k |-> "always"], BoolT(TRUE, 40), Compared("!=", IF independent THEN y ELSE Size1(ys), Lit(1), N)>>, d[3])
      ci == Choose(<<[k |-> "always"], Compared("!=", x, Effect(4), N), BoolT(FALSE, 41), Bin("<", T(4), x)>>, d[4])
      l == [k |-> "comp", t |-> N, e |-> IF independent THEN Bin("+", Bin("*", x, Lit(10)), y) ELSE Bin("+", x, Lit(100)),
            bs |-> IF independent
                   THEN <<[xs |-> <<"y">>, ls |-> <<Ticks(0, Len(s))>>, c |-> co], [xs |-> <<"x">>, ls |-> <<Ticks(2, d[1] % 3)>>, c |-> ci]>>
                   ELSE <<[xs |-> <<"ys">>, ls |-> <<lists>>, c |-> co], [xs |-> <<"x">>, ls |-> <<ys>>, c |-> ci]>>]
      r == Consume(l, Choose(<<0, 1, 3, 8>>, d[5]))
  IN Form(r.r, r.b)

-----------------------------------------------------------------------------
(* Values of different types, and functions telling them apart. *)
Sample(t, i) ==
  CASE t = N -> Effect(i) [] t = S -> StrE("a") [] t = Z -> NoneE [] t = B -> BoolE(TRUE)
    [] t = L(N) -> Items(N, <<Effect(1)>>) [] t = L(S) -> List(S, <<>>) [] t = MN -> Map(N, N, <<Entry(O, O)>>) [] t = MS -> Map(S, N, <<>>)
    [] t = R("r") -> Rec("r", <<Fd("a", Effect(i)), Fd("b", NoneE)>>)
    [] t = R("t") -> Rec("t", <<Fd("z", Effect(i)), Fd("a", O), Fd("m", O)>>)
    [] t = E -> Err(Effect(i))
    [] t = FN -> Lam(<<Param("x", N)>>, N, Just(Bin("+", Var("x"), O)))
    [] t = F0 -> Lam(<<>>, N, Just(Effect(i)))
    [] t = L(UN) -> Items(UN, <<Effect(1), NoneE>>)

Members4 == << <<N, S, Z, B>>, <<L(N), L(S), MN, R("r")>>, <<FN, F0, R("t"), E>>, <<Z, MS, MN, L(L(N))>> >>
SampleOf(t, i) == IF t = L(L(N)) THEN List(L(N), <<>>) ELSE Sample(t, i)

(* The blocks in which the members are handled: a cut after the i-th if the bit is set. *)
RECURSIVE Cuts(_, _, _)
Cuts(ts, mask, block) ==
  IF Len(ts) = 1 THEN <<Append(block, ts[1])>>
  ELSE IF mask % 2 = 1 THEN <<Append(block, ts[1])>> \o Cuts(Tail(ts), mask \div 2, <<>>)
  ELSE Cuts(Tail(ts), mask \div 2, Append(block, ts[1]))
TypeOf(block) == IF Len(block) = 1 THEN block[1] ELSE U(block)
(* What a branch does: it tells the members of its block apart, too. *)
BranchBody(block, n) ==
  IF Len(block) = 1
  THEN IF block[1] = N THEN Block(<<Let("", N, T(n))>>, Bin("+", Var("x"), Lit(n)))
       ELSE IF block[1] = L(N) THEN Just(Bin("+", Call(Top(Sum), <<Var("x")>>), T(n)))
       ELSE IF block[1] = F0 THEN Just(Bin("+", Call(Var("x"), <<>>), T(n)))
       ELSE IF block[1] = R("r") THEN Just(Bin("+", Get(Var("x"), "a"), T(n)))
       ELSE IF block[1] = MN THEN Just(Bin("+", Size1(Var("x")), T(n)))
       ELSE Just(T(n))
  ELSE Just(IfType("x", Var("x"), Z, <<[t |-> block[Len(block)], e |-> Just(T(n + 100))]>>, Just(T(n + 200))))
UnionForm(d, i) ==
  LET all == Choose(Members4, d[5])
      ts == SubSeq(Perm(d[1], all), 1, d[3] + 2)
      blocks == Cuts(ts, d[2], <<>>)
      n == IF d[4] = 1 /\ Len(blocks) > 1 THEN Len(blocks) - 1 ELSE Len(blocks)
      g == [x |-> "g" \o ToString(i), ps |-> <<Param("o", N), Param("v", U(ts))>>, r |-> N,
            body |-> Just(IfType("x", Var("v"), Z, [j \in 1..n |-> [t |-> TypeOf(blocks[j]), e |-> BranchBody(blocks[j], 10 * j)]],
                                 IF n = Len(blocks) THEN Absent ELSE BranchBody(blocks[n + 1], 90)))]
  IN FormWith(L(N), Just(Items(N, [j \in 1..Len(ts) |-> Call(Top(g), <<O, SampleOf(ts[j], j)>>)])), <<g>>)

AnyTypes == <<N, S, B, Z, R("r"), R("t"), L(N), L(S), MN, FN, F0, E, L(UN)>>
AnyForm(d, i) ==
  LET a == Choose(AnyTypes, d[1])
      b == Choose(AnyTypes, (d[1] + 1 + d[2]) % 13)
      c == Choose(AnyTypes, (d[1] + 1 + ((d[2] + d[3]) % 12)) % 13)
      bs == IF d[3] = 0 THEN << <<a>>, <<b>> >> ELSE IF d[3] < 3 THEN << <<a>>, <<b>>, <<c>> >> ELSE << <<b, c>>, <<a>> >>
      g == [x |-> "g" \o ToString(i), ps |-> <<Param("o", N), Param("v", A)>>, r |-> N,
            body |-> Just(IfType("x", Var("v"), Z, [j \in 1..Len(bs) |-> [t |-> TypeOf(bs[j]), e |-> BranchBody(bs[j], 10 * j)]], Just(T(90))))]
  IN FormWith(L(N), Just(Items(N, [j \in 1..13 |-> Call(Top(g), <<O, Sample(AnyTypes[j], j)>>)])), <<g>>)

(* Values of a type where a wider one is expected. *)
Widenings == << <<N, UN>>, <<Z, UN>>, <<N, A>>, <<UN, US>>, <<UN, A>>, <<S, US>>, <<L(N), A>>, <<L(N), U(<<L(N), Z>>)>>, <<R("r"), UR>>, <<E, UE>>,
                <<F0, U(<<F0, Z>>)>>, <<MN, A>>, <<B, A>>, <<Z, A>>, <<L(N), UR>>, <<U(<<Z, N>>), UN>> >>
Leaves(t) == CASE t.k = "union" -> t.ts [] t.k = "any" -> <<N, Z, L(N), MN, B>> [] OTHER -> <<t>>
WidenForm(d, i) ==
  LET lower == Choose(Widenings, d[1])[1]
      upper == Choose(Widenings, d[1])[2]
      f(n, ps, r, b) == [x |-> n \o ToString(i), ps |-> <<Param("o", N)>> \o ps, r |-> r, body |-> b]
      leaf == IF lower.k = "union" THEN lower.ts[d[3] + 1] ELSE lower
      low == f("low", <<>>, lower, Just(Sample(leaf, 3)))
      tell == f("tell", <<Param("v", upper)>>, N,
                LET ls == Leaves(upper)
                    n == IF upper = A THEN Len(ls) ELSE Len(ls) - 1
                IN Just(IfType("x", Var("v"), Z, [j \in 1..n |-> [t |-> ls[j], e |-> BranchBody(<<ls[j]>>, 10 * j)]], Just(T(90)))))
      v == Call(Top(low), <<O>>)
      other == Sample(Leaves(upper)[1], 4)
      id == f("id", <<Param("v", upper)>>, upper, Just(Var("v")))
      ret(b) == f("ret", <<Param("v", lower)>>, upper, b)
      w == Var("v")
      back(b) == [e |-> Call(Top(ret(b)), <<O, v>>), fs |-> <<low, tell, id, ret(b)>>]
      told(e) == [e |-> e, fs |-> <<low, tell, id>>]
      r == CASE d[2] = 0 -> told(v)
             [] d[2] = 1 -> told(Call(Top(id), <<O, v>>))
             [] d[2] = 2 -> back(Just(w))
             [] d[2] = 3 -> back(Just(If(BoolT(TRUE, 1), Just(w), Just(other))))
             [] d[2] = 4 -> back(Just(If(BoolT(FALSE, 1), Just(other), Just(w))))
             [] d[2] = 5 -> back(Just(IfList(Items(upper, <<w>>), "x", "xs", Just(Call(Var("x"), <<>>)), Just(other))))
             [] d[2] = 6 -> back(Just(IfMap("x", Map(N, upper, <<Entry(Lit(1), w)>>), Lit(1), Just(Var("x")), Just(other))))
             [] d[2] = 7 -> back(Just(IfMap("x", Map(N, N, <<>>), Lit(1), Just(other), Just(w))))
             [] d[2] = 8 -> back(Just(Call(Lam(<<>>, upper, Just(w)), <<>>)))
             [] d[2] = 9 -> back(Just(IfList([k |-> "comp", t |-> upper, e |-> w, bs |-> <<[xs |-> <<"y">>, ls |-> <<Ticks(0, 1)>>, c |-> [k |-> "always"]]>>], "x", "xs", Just(Call(Var("x"), <<>>)), Just(other))))
             [] d[2] = 10 -> back(Block(<<Let("q", upper, If(BoolT(TRUE, 1), Just(w), Just(other)))>>, Var("q")))
             [] d[2] = 11 -> back(Just(IfType("x", Call(Lam(<<>>, UN, Just(Effect(2))), <<>>), Z, <<[t |-> N, e |-> Just(w)]>>, Just(other))))
  IN FormWith(N, Just(Call(Top(tell), <<O, r.e>>)), r.fs)

(* Comparisons of all pairs of some values of a type; operands of the type itself or of their own one. *)
Values(t) ==
  CASE t = N -> <<Effect(0), Effect(1)>>
    [] t = B -> <<BoolT(TRUE, 1), BoolT(FALSE, 1)>>
    [] t = S -> <<StrE(""), StrE("a"), StrE("ab"), Bin("+", StrE("a"), StrE("b"))>>
    [] t = Z -> <<NoneE>>
    [] t = UN -> <<Effect(0), NoneE, Effect(1)>>
    [] t = US -> <<Effect(0), NoneE, StrE("a"), StrE(""), Effect(1)>>
    [] t = U(<<B, Z>>) -> <<BoolT(TRUE, 1), NoneE, BoolT(FALSE, 1)>>
    [] t = R("r") -> [i \in 1..4 |-> Rec("r", <<Fd("a", Effect(i % 2)), Fd("b", IF i < 3 THEN StrE("a") ELSE NoneE)>>)]
    [] t = R("t") -> [i \in 1..8 |-> Rec("t", <<Fd("z", Effect(i % 2)), Fd("m", Effect((i \div 2) % 2)), Fd("a", T((i \div 4) % 2))>>)]
    [] t = R("p") -> [i \in 1..4 |-> Rec("p", <<Fd("r", Rec("r", <<Fd("a", Effect(i % 2)), Fd("b", NoneE)>>)), Fd("q", IF i < 3 THEN List(N, <<>>) ELSE Items(N, <<Effect(1)>>))>>)]
    [] t = MN -> <<Map(N, N, <<>>), Map(N, N, <<Entry(O, O)>>), Map(N, N, <<Entry(O, Effect(1))>>), Map(N, N, <<Entry(Effect(1), O)>>),
                   Map(N, N, <<Entry(O, O), Entry(Effect(1), Effect(1))>>), Map(N, N, <<Entry(Effect(1), Effect(1)), Entry(O, O)>>)>>
    [] t = UR -> <<Effect(0), Rec("r", <<Fd("a", O), Fd("b", NoneE)>>), Rec("r", <<Fd("a", O), Fd("b", StrE("a"))>>), List(N, <<>>), Items(N, <<O>>), Effect(1)>>
    [] t = LU -> <<List(UN, <<>>), Items(UN, <<O>>), Items(UN, <<NoneE>>), Items(UN, <<O, NoneE>>)>>
    [] t = U(<<MN, MS>>) -> <<Map(N, N, <<>>), Map(S, N, <<>>), Map(N, N, <<Entry(O, O)>>), Map(S, N, <<Entry(StrE("a"), O)>>)>>
    [] t = U(<<L(N), L(S)>>) -> <<List(N, <<>>), List(S, <<>>), Items(N, <<O>>), Items(S, <<StrE("a")>>)>>
    [] t = U(<<R("r"), R("t")>>) -> <<Rec("r", <<Fd("a", O), Fd("b", NoneE)>>), Rec("t", <<Fd("z", O), Fd("m", O), Fd("a", O)>>), Rec("t", <<Fd("z", O), Fd("m", O), Fd("a", Effect(1))>>)>>
EqualTypes == <<N, B, S, Z, UN, US, U(<<B, Z>>), R("r"), R("t"), R("p"), MN, UR, LU, U(<<MN, MS>>), U(<<L(N), L(S)>>), U(<<R("r"), R("t")>>)>>
EqualForm(d) ==
  LET t == Choose(EqualTypes, d[1])
      vs == Values(t)
      a == vs[(d[2] % Len(vs)) + 1]
      op == IF d[3] = 0 THEN "==" ELSE "!="
      (* One operand of the type of all values, the other of its own one. *)
      wide(x) == Call(Lam(<<>>, t, Just(x)), <<>>)
      g(x, y) == CASE d[4] = 0 -> Compared(op, x, y, t) [] d[4] = 1 -> Compared(op, wide(x), y, Z) [] d[4] = 2 -> Compared(op, y, wide(x), Z)
  IN Form(L(B), Just(Items(B, [i \in 1..Len(vs) |-> g(a, vs[i])])))

(* Keys of maps are told apart exactly as values are, however they were made. *)
One == Effect(1)
Plus(l) == [k |-> "comp", t |-> N, e |-> Bin("+", Call(Var("x"), <<>>), Lit(1)), bs |-> <<[xs |-> <<"x">>, ls |-> <<l>>, c |-> [k |-> "always"]]>>]
KeyValues(t) ==
  CASE t = L(N) -> <<List(N, <<>>), Items(N, <<One>>), Plus(Items(N, <<O>>)), List(N, <<Spread(Items(N, <<One>>)), Item(O)>>), List(N, <<Item(One), Spread(Plus(Items(N, <<Lit(-1)>>)))>>),
                     List(N, <<Spread(List(N, <<>>)), Spread(Items(N, <<O, One>>))>>), Items(N, <<O, One>>), List(N, <<Item(O), Spread(Plus(List(N, <<>>)))>>)>>
    [] t = L(S) -> <<Items(S, <<StrE("a"), StrE("b")>>), Items(S, <<StrE("ab")>>), Items(S, <<Bin("+", StrE("a"), StrE("b"))>>), List(S, <<Spread(Items(S, <<StrE("a")>>)), Item(Bin("+", StrE(""), StrE("b")))>>),
                     Items(S, <<StrE("")>>), List(S, <<>>)>>
    [] t = M(S, N) -> <<Map(S, N, <<>>), Map(S, N, <<Entry(StrE("a"), O), Entry(StrE("b"), One)>>), Map(S, N, <<Entry(Bin("+", StrE("b"), StrE("")), One), Spread(Map(S, N, <<Entry(StrE("a"), O)>>))>>),
                        Map(S, N, <<Entry(StrE("a"), One), Entry(StrE("b"), O)>>), [k |-> "delete", m |-> Map(S, N, <<Entry(StrE("c"), O), Entry(StrE("b"), One), Entry(StrE("a"), O)>>), key |-> StrE("c"), of |-> MS],
                        Map(S, N, <<Entry(StrE("a"), Lit(7)), Entry(StrE("b"), One), Entry(StrE("a"), O)>>)>>
    [] t = S -> <<StrE("abc"), Bin("+", StrE("a"), StrE("bc")), Bin("+", Bin("+", StrE(""), StrE("ab")), StrE("c")), Bin("+", StrE(""), StrE("")), StrE(""), StrE("acb")>>
    [] OTHER -> Values(t)
SafeKeys == <<N, B, S, Z, UN, U(<<B, Z>>), R("r"), R("t"), R("p"), MN, U(<<R("r"), R("t")>>), L(N), L(S), MS>>   \* no two different values of these hash alike
KeyTypes == SafeKeys \o <<US, UR, LU, U(<<MN, MS>>), U(<<L(N), L(S)>>)>>
KeyForm(d) ==
  LET t == IF d[3] < 2 THEN KeyTypes[d[1] + 1] ELSE SafeKeys[(d[1] % Len(SafeKeys)) + 1]
      vs == KeyValues(t)
      a == vs[(d[2] % Len(vs)) + 1]
      m(es) == Map(t, N, es)
      n == Len(vs)
      at(x, key) == IfMap("v", x, key, Just(Var("v")), Just(Lit(-1)))
      all(sh) == m([i \in 1..n |-> Entry(vs[((i + sh) % n) + 1], Lit(i))])
  IN CASE d[3] = 0 -> Form(L(N), Just(Items(N, [i \in 1..n |-> at(m(<<Entry(a, T(1))>>), vs[i])])))
       [] d[3] = 1 -> Form(L(N), Just(Items(N, [i \in 1..n |-> Size1([k |-> "delete", m |-> m(<<Entry(a, Lit(1))>>), key |-> vs[i], of |-> M(t, N)])])))
       [] d[3] = 2 -> Form(L(N), Block(<<Let("m", M(t, N), all(d[2]))>>, Items(N, <<Size1(Var("m"))>> \o [i \in 1..n |-> at(Var("m"), vs[i])])))
       [] d[3] = 3 -> Form(L(B), Block(<<Let("m", M(t, N), all(0))>>,
                                       Items(B, <<Compared("==", Var("m"), all(0), M(t, N)), Compared("==", Var("m"), m(<<Spread(Var("m")), Entry(a, Lit(50))>>), M(t, N)),
                                                  Compared("==", [k |-> "delete", m |-> Var("m"), key |-> a, of |-> M(t, N)], Var("m"), M(t, N)),
                                                  Compared("==", [k |-> "delete", m |-> m(<<Entry(a, Lit(50)), Spread(Var("m"))>>), key |-> a, of |-> M(t, N)], [k |-> "delete", m |-> Var("m"), key |-> a, of |-> M(t, N)], M(t, N))>>)))

-----------------------------------------------------------------------------
(* Records made in any order of fields, and updated twice. *)
Subsets3 == << <<>>, <<"z">>, <<"a">>, <<"m">>, <<"z", "a">>, <<"a", "z">>, <<"z", "m">>, <<"m", "z">>, <<"a", "m">>, <<"m", "a">>,
               <<"z", "a", "m">>, <<"z", "m", "a">>, <<"a", "z", "m">>, <<"a", "m", "z">>, <<"m", "z", "a">>, <<"m", "a", "z">> >>
Fields(xs, n) == [i \in 1..Len(xs) |-> Fd(xs[i], T(n + i))]
RecordForm(d) ==
  LET base == Rec("t", Fields(Perm(d[1], <<"z", "a", "m">>), 0))
      up(x, j, n) == IF j = 0 THEN x ELSE Upd("t", x, Fields(Choose(Subsets3, j), n))
  IN Form(L(R("t")), Block(<<Let("v", R("t"), base), Let("u", R("t"), up(Var("v"), d[2], 10)), Let("w", R("t"), up(Var(IF d[4] = 0 THEN "u" ELSE "v"), d[3], 20))>>,
                           Items(R("t"), <<Var("v"), Var("u"), Var("w")>>)))

(* Records of many fields: differing in one, changed in one or two, and all their fields read. *)
WideFields == [i \in 1..11 |-> RecordFields["w"][i].x]
WideForm(d) ==
  LET v(i, n) == IF i = 5 THEN StrE(Choose(<<"a", "b">>, n % 2)) ELSE IF n % 2 = 0 THEN Effect(i) ELSE Effect(20 + n)
      w(odd, from) == Rec("w", [i \in 1..11 |-> LET j == ((i + from) % 11) + 1 IN Fd(WideFields[j], v(j, IF j = odd THEN 1 ELSE 0))])
      t == R("w")
      x == Var("x")
      y == Var("y")
      up == Upd("w", x, <<Fd(WideFields[d[1] + 1], v(d[1] + 1, 1))>> \o IF d[2] = d[1] THEN <<>> ELSE <<Fd(WideFields[d[2] + 1], v(d[2] + 1, 3))>>)
      key == [k |-> "ifmap", x |-> "q", m |-> Map(t, B, <<Entry(x, BoolE(TRUE))>>), key |-> y, a |-> Just(BoolE(TRUE)), b |-> Just(BoolE(FALSE))]
  IN IF d[3] = 0
     THEN Form(L(B), Block(<<Let("x", t, w(d[1], 0)), Let("y", t, w(d[2], d[1]))>>, Items(B, <<Compared("==", x, y, t), Compared("!=", y, x, t), key, Compared("==", x, x, t)>>)))
     ELSE Form(L(t), Block(<<Let("x", t, w(0, d[2])), Let("y", t, up)>>, Items(t, <<x, y, Rec("w", [i \in 1..11 |-> Fd(WideFields[12 - i], Get(y, WideFields[12 - i]))])>>)))

(* Assignments of records, strings or lists to two names, some made out of others. *)
Made(kind, c, n) ==
  LET x == Var("x")
      y == Var("y")
  IN CASE kind = "t" ->
            (CASE c = 0 -> Upd("t", x, <<Fd("a", T(n))>>) [] c = 1 -> Upd("t", y, <<Fd("z", Get(x, "a"))>>) [] c = 2 -> x [] c = 3 -> y
               [] c = 4 -> Upd("t", Upd("t", x, <<Fd("m", Get(x, "z"))>>), <<Fd("z", Get(y, "m"))>>)
               [] c = 5 -> If(Compared("==", x, y, R("t")), Just(Upd("t", x, <<Fd("a", Lit(50))>>)), Just(Upd("t", y, <<Fd("a", Get(x, "z"))>>))))
       [] kind = "s" ->
            (CASE c = 0 -> Bin("+", x, y) [] c = 1 -> Bin("+", y, StrE("c")) [] c = 2 -> x [] c = 3 -> Bin("+", Bin("+", x, StrE("d")), x)
               [] c = 4 -> StrE("") [] c = 5 -> If(Compared("==", x, y, S), Just(Bin("+", x, StrE("e"))), Just(Bin("+", StrE("f"), Bin("+", y, x)))))
       [] kind = "l" ->
            (CASE c = 0 -> List(N, <<Item(T(n)), Spread(x)>>) [] c = 1 -> List(N, <<Spread(y), Item(T(n))>>) [] c = 2 -> x [] c = 3 -> List(N, <<Spread(x), Spread(y)>>)
               [] c = 4 -> IfList(y, "h", "x", Just(Var("x")), Just(Var("x"))) [] c = 5 -> IfList(x, "y", "z", Just(List(N, <<Item(Call(Var("y"), <<>>)), Spread(Var("z"))>>)), Just(y)))
       [] kind = "m" ->
            (CASE c = 0 -> Map(N, N, <<Spread(x), Entry(Effect(n), T(n))>>) [] c = 1 -> Map(N, N, <<Spread(y), Spread(x)>>) [] c = 2 -> x [] c = 3 -> [k |-> "delete", m |-> x, key |-> Effect(n - 1), of |-> MN]
               [] c = 4 -> [k |-> "delete", m |-> Map(N, N, <<Spread(x), Entry(Effect(7), O)>>), key |-> O, of |-> MN]
               [] c = 5 -> IfMap("v", x, Effect(1), Just(Map(N, N, <<Entry(Var("v"), O), Spread(x)>>)), Just(y)))
       [] kind = "n" ->
            (CASE c = 0 -> T(n) [] c = 1 -> Bin("+", x, Lit(1)) [] c = 2 -> x [] c = 3 -> y [] c = 4 -> Lit(n)
               [] c = 5 -> If(Bin("<", x, y), Block(<<Let("x", N, Bin("+", y, Lit(100)))>>, Var("x")), Block(<<Let("y", N, T(n))>>, Bin("-", Var("x"), Var("y")))))
Kinds == <<"n", "t", "s", "l", "m">>
KindType == [t |-> R("t"), s |-> S, l |-> L(N), m |-> MN, n |-> N]
Given2(kind, n) ==
  CASE kind = "t" -> Rec("t", <<Fd("z", T(n)), Fd("a", Effect(n + 1)), Fd("m", Effect(n + 2))>>) [] kind = "s" -> StrE(IF n = 1 THEN "a" ELSE "b")
    [] kind = "l" -> Items(N, <<T(n), Effect(n + 1)>>) [] kind = "m" -> Map(N, N, <<Entry(Effect(n), T(n)), Entry(O, O)>>) [] kind = "n" -> T(n)
Shown(kind, x) == CASE kind = "m" -> Map(N, N, <<Entry(Lit(0), Size1(Var(x))), Spread(Var(x))>>) [] OTHER -> Var(x)
(* The two names are parameters or bound in the function; a closure made on the way holds them as they were then. *)
AssignForm(d, i) ==
  LET kind == Choose(Kinds, d[1])
      t == KindType[kind]
      s(j, c) == Let(IF c % 2 = 0 THEN "x" ELSE "y", t, Made(kind, c \div 2, j + 2))
      c == Let("f", F(<<>>, L(t)), Lam(<<>>, L(t), Just(Items(t, <<Var("x"), Var("y")>>))))
      all == <<s(1, d[2]), s(2, d[3]), s(3, d[4])>>
      ss == SubSeq(all, 1, d[5]) \o <<c>> \o SubSeq(all, d[5] + 1, 3)
      last == List(t, <<Item(Var("x")), Item(Var("y")), Spread(Call(Var("f"), <<>>))>>)
      g == [x |-> "g" \o ToString(i), ps |-> <<Param("o", N), Param("x", t), Param("y", t)>>, r |-> L(t), body |-> Block(ss, last)]
      h == Block(<<Let("x", t, Given2(kind, 1)), Let("y", t, Given2(kind, 3))>> \o ss, last)
  IN IF d[6] = 0 THEN Form(L(t), h)
     ELSE FormWith(L(t), Block(<<Let("x", t, Given2(kind, 1)), Let("y", t, Given2(kind, 3)), Let("z", L(t), Call(Top(g), <<O, Var("x"), Var("y")>>))>>,
                               List(t, <<Spread(Var("z")), Item(Var("x")), Item(Var("y"))>>)), <<g>>)

-----------------------------------------------------------------------------
(* Literals of maps, and what is done with them. *)
MapEntry(a, c, i) ==
  LET key(n) == IF a = N THEN Effect(n) ELSE StrE(Choose(<<"", "a", "b", "ab">>, n))
  IN CASE c = 0 -> Entry(key(1), T(i)) [] c = 1 -> Entry(key(2), T(i)) [] c = 2 -> Entry(IF a = N THEN T(1) ELSE StrE("a"), T(10 + i)) [] c = 3 -> Entry(key(3), O)
       [] c = 4 -> Spread(Map(a, N, <<Entry(key(1), T(20 + i)), Entry(key(2), T(30 + i))>>)) [] c = 5 -> Spread(Map(a, N, <<>>))
MapForm(d) ==
  LET a == Choose(<<N, S>>, d[2])
      t == M(a, N)
      s == SeqOf(d[1], 6)
      key(n) == IF a = N THEN Effect(n) ELSE StrE(Choose(<<"", "a", "b", "ab">>, n))
      m == Map(a, N, [i \in 1..Len(s) |-> MapEntry(a, s[i], i)])
      x == Var("m")
      at(y, n) == IfMap("v", y, key(n), Just(Bin("+", Var("v"), T(40))), Just(T(50)))
      del(n) == [k |-> "delete", m |-> x, key |-> key(n), of |-> t]
      with(r, e) == Form(r, Block(<<Let("m", t, m)>>, e))
  IN CASE d[3] = 0 -> Form(t, Just(m))
       [] d[3] = 1 -> with(L(N), Items(N, <<Size1(x), at(x, 1), at(x, 2), at(x, 3)>>))
       [] d[3] = 2 -> with(L(t), Items(t, <<del(1), x, del(2), [k |-> "delete", m |-> del(1), key |-> key(2), of |-> t]>>))
       [] d[3] = 3 -> with(L(B), Items(B, <<Compared("==", x, Map(a, N, <<Entry(key(2), Effect(2)), Entry(key(1), Effect(1))>>), t), Compared("!=", x, del(3), t)>>))
       [] d[3] = 4 -> with(L(N), Items(N, IF a = N THEN <<Call(Top(Sum), <<[k |-> "keys", e |-> x]>>), Call(Top(Sum), <<[k |-> "values", e |-> x]>>)>>
                                          ELSE <<Size1([k |-> "keys", e |-> x]), Call(Top(Sum), <<[k |-> "values", e |-> x]>>)>>))
       [] d[3] = 5 -> with(N, T(60))

-----------------------------------------------------------------------------
(* Early exits in every place of an expression. *)
TryForm(d, i) ==
  LET risky == [x |-> "risky" \o ToString(i), ps |-> <<Param("n", N), Param("bad", B)>>, r |-> UE,
                body |-> Just(If(Var("bad"), Just(Err(Call(Top(Tick), <<Var("n")>>))), Just(Call(Top(Tick), <<Var("n")>>))))]
      h(j) == Try(Call(Top(risky), <<Effect(j), BoolE(d[j + 1] = 1)>>))
      g3 == [x |-> "three" \o ToString(i), ps |-> <<Param("a", N), Param("b", N), Param("c", N)>>, r |-> N, body |-> Just(Bin("-", Bin("-", Var("a"), Var("b")), Var("c")))]
      r(e) == FormWith(UE, e, <<risky, g3>>)
      j(e) == r(Just(e))
  IN CASE d[1] = 0 -> j(Bin("+", h(1), Bin("*", h(2), h(3))))
       [] d[1] = 1 -> j(Call(Top(g3), <<h(1), h(2), h(3)>>))
       [] d[1] = 2 -> r(Block(<<Let("a", N, h(1)), Let("", N, h(2)), Let("b", N, h(3))>>, Bin("+", Var("a"), Var("b"))))
       [] d[1] = 3 -> j(Get(Rec("t", <<Fd("m", h(1)), Fd("z", h(2)), Fd("a", h(3))>>), "a"))
       [] d[1] = 4 -> j(Size1(Map(N, N, <<Entry(h(1), h(2)), Entry(Lit(9), h(3))>>)))
       [] d[1] = 5 -> j(If(Bin("<", h(1), h(2)), Just(h(3)), Just(T(9))))
       [] d[1] = 6 -> j(IfMap("x", Map(N, N, <<Entry(Lit(1), h(1))>>), h(2), Just(h(3)), Just(h(3))))
       [] d[1] = 7 -> j(IfType("x", If(Bin("<", h(1), h(2)), Just(Err(NoneE)), Just(h(3))), UE, <<[t |-> N, e |-> Just(Var("x"))], [t |-> E, e |-> Just(Lit(5))]>>, Absent))
       [] d[1] = 8 -> j(If(Not(Compared("==", h(1), h(2), N)), Block(<<Let("z", N, h(3))>>, Var("z")), Just(Lit(0))))
       [] d[1] = 9 -> j(Call(Lam(<<Param("x", N), Param("y", N)>>, N, Just(Bin("-", Var("x"), Var("y")))), <<h(1), Bin("+", h(2), h(3))>>))
       [] d[1] = 10 -> j(IfList(Call(Top(Down), <<h(1)>>), "x", "xs", Just(Bin("+", Call(Var("x"), <<>>), h(2))), Just(h(3))))
       [] d[1] = 11 -> j(Err(Bin("+", h(1), Bin("+", h(2), h(3)))))
       [] d[1] = 12 -> r(Block(<<Let("f", F(<<>>, UE), Lam(<<>>, UE, Just(Bin("+", h(1), h(2)))))>>, Bin("+", Try(Call(Var("f"), <<>>)), h(3))))
       [] d[1] = 13 -> j(Get(Upd("t", Rec("t", <<Fd("m", h(1)), Fd("z", Lit(1)), Fd("a", Lit(2))>>), <<Fd("z", h(2)), Fd("a", h(3))>>), "z"))
       [] d[1] = 14 -> j(If(Bin("&", Bin("<", h(1), Lit(9)), Bin("|", Bin("<", h(2), Lit(0)), Bin("<", h(3), Lit(9)))), Just(T(8)), Just(T(7))))
       [] d[1] = 15 -> j(IfType("x", If(Bin("<", h(1), h(2)), Just(h(3)), Just(StrE("a"))), Z, <<[t |-> N, e |-> Just(Var("x"))]>>, Just(Lit(0))))

-----------------------------------------------------------------------------
(* Closures which hold values of three types. *)
Held == <<N, B, S, Z, L(N), F0, R("r"), A, UN>>
HeldValue(t, i) ==
  CASE t = A -> IF i = 2 THEN Items(N, <<T(i)>>) ELSE StrE("any") [] t = UN -> IF i = 2 THEN NoneE ELSE T(i) [] t = N -> T(i) [] t = B -> BoolT(i = 2, i)
    [] t = S -> Bin("+", StrE("a"), StrE("b")) [] t = L(N) -> Ticks(10 * i, 2) [] t = F0 -> Lam(<<>>, N, Just(T(70 + i))) [] OTHER -> Sample(t, i)
HeldUse(t, x) == IF t = F0 THEN Call(Var(x), <<>>) ELSE Var(x)
ClosureForm(d, i) ==
  LET t(j) == Choose(Held, d[j])
      ps == <<Param("a", t(1)), Param("b", t(2)), Param("c", t(3))>>
      shown == Items(A, <<HeldUse(t(1), "a"), HeldUse(t(2), "b"), HeldUse(t(3), "c")>>)
      ft == F(<<>>, L(A))
      lam == Lam(<<>>, L(A), Just(shown))
      make == [x |-> "make" \o ToString(i), ps |-> <<Param("o", N)>> \o ps, r |-> ft, body |-> Just(lam)]
      call == [x |-> "call" \o ToString(i), ps |-> <<Param("f", ft)>>, r |-> L(A), body |-> Just(Call(Var("f"), <<>>))]
      vs == <<HeldValue(t(1), 1), HeldValue(t(2), 2), HeldValue(t(3), 3)>>
      lets == [j \in 1..3 |-> Let(<<"a", "b", "c">>[j], t(j), Call(Lam(<<>>, t(j), Just(vs[j])), <<>>))]
      both(f) == List(A, <<Spread(Call(f, <<>>)), Spread(Call(f, <<>>))>>)
      r(e) == FormWith(L(A), e, <<make, call>>)
  IN CASE d[4] = 0 -> r(Just(Call(Call(Top(make), <<O>> \o vs), <<>>)))
       [] d[4] = 1 -> r(Block(Append(lets, Let("f", ft, lam)), both(Var("f"))))
       [] d[4] = 2 -> r(Block(lets, Call(Top(call), <<lam>>)))
       [] d[4] = 3 -> r(Block(lets, Call(Call(Lam(<<>>, ft, Just(lam)), <<>>), <<>>)))
       [] d[4] = 4 -> r(Block(Append(lets, Let("l", L(ft), Items(ft, <<lam, Lam(<<>>, L(A), Just(Items(A, <<Var("a")>>)))>>))),
                              IfList(Var("l"), "f", "l", Just(Call(Call(Var("f"), <<>>), <<>>)), Just(List(A, <<>>)))))
       [] d[4] = 5 -> r(Block(<<lets[1], lets[2], Let("g", F(<<t(3)>>, ft), Lam(<<Param("c", t(3))>>, ft, Just(lam))), Let("f", ft, Call(Var("g"), <<vs[3]>>)), Let("a", N, T(90)), Let("b", N, Lit(3))>>,
                              both(Var("f"))))

-----------------------------------------------------------------------------
Bases(f) ==
  CASE f = "boolean" -> <<2, 4, 4, 2, 2, 2, 4>>
    [] f = "number" -> <<2, 3, 3, 3, 4, 7>>
    [] f = "chain" -> <<2, 2, 2, 2, 2>>
    [] f = "list" -> <<156, Consumers>>
    [] f = "listequal" -> <<15, 5, 2>>
    [] f = "comp" -> <<4, 5, 7, 6, 2>>
    [] f = "comp2" -> <<13, 2, 3, 4, 4>>
    [] f = "union" -> <<24, 8, 3, 2, 4>>
    [] f = "any" -> <<13, 12, 4>>
    [] f = "widen" -> <<16, 12, 2>>
    [] f = "equal" -> <<16, 8, 2, 3>>
    [] f = "key" -> <<19, 8, 4>>
    [] f = "wide" -> <<11, 11, 2>>
    [] f = "record" -> <<6, 16, 16, 2>>
    [] f = "assign" -> <<5, 12, 12, 12, 4, 2>>
    [] f = "map" -> <<259, 2, 6>>
    [] f = "try" -> <<16, 2, 2, 2>>
    [] f = "closure" -> <<9, 9, 9, 6>>

FormOf(f, i) ==
  LET d == Digits(i, Bases(f)) IN
  CASE f = "boolean" -> BoolForm(d)
    [] f = "number" -> NumForm(d)
    [] f = "chain" -> ChainForm(d)
    [] f = "list" -> ListForm(d)
    [] f = "listequal" -> ListEqualForm(d)
    [] f = "comp" -> CompForm(d)
    [] f = "comp2" -> CompTwiceForm(d)
    [] f = "union" -> UnionForm(d, i)
    [] f = "any" -> AnyForm(d, i)
    [] f = "widen" -> WidenForm(d, i)
    [] f = "equal" -> EqualForm(d)
    [] f = "key" -> KeyForm(d)
    [] f = "wide" -> WideForm(d)
    [] f = "record" -> RecordForm(d)
    [] f = "assign" -> AssignForm(d, i)
    [] f = "map" -> MapForm(d)
    [] f = "try" -> TryForm(d, i)
    [] f = "closure" -> ClosureForm(d, i)

(* Strides are relatively prime to the bases, so that the modules given are spread over all of the choices. *)
Stride(f) == IF Step = 1 THEN 1 ELSE CASE Product(Bases(f)) < 400 -> 1 [] Product(Bases(f)) < 1200 -> IF f \in {"equal", "key"} THEN 1 ELSE 5
            [] f \in {"list", "comp2"} -> 5 [] f = "comp" -> 11 [] Product(Bases(f)) < 6000 -> 17 [] OTHER -> 151
VARIABLES family, at, done
vars == <<family, at, done>>
Init == /\ family \in Families
        /\ at \in {i \in 0..Product(Bases(family)) - 1 : (i + Offset) % Stride(family) = 0}
        /\ done = FALSE
Next ==
  /\ ~done
  /\ LET q == FormOf(family, at)
         name == "M" \o family \o ToString(at)
         main == [x |-> name, ps |-> <<Param("o", N)>>, r |-> q.r, body |-> q.body]
         p == q.fs \o <<main>>
         r == Run(Table(Library \o p), name, Fuel)
     IN PrintT("@@" \o ToJson([f |-> family, i |-> at, p |-> p, big |-> r.st.big, v |-> IF r.st.big THEN 0 ELSE r.v, out |-> IF r.st.big THEN <<>> ELSE r.st.out]))
  /\ done' = TRUE /\ UNCHANGED <<family, at>>
Spec == Init /\ [][Next]_vars
=============================================================================
