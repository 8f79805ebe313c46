----------------------------- MODULE PenLibrary -----------------------------
(* Types, forms of expressions, and the functions which every generated module has. *)
EXTENDS PenEval, Json

UN == U(<<N, Z>>)
US == U(<<N, S, Z>>)
UE == U(<<N, E>>)
UR == U(<<R("r"), N, L(N)>>)
LU == L(UN)
FN == F(<<N>>, N)
F0 == F(<<>>, N)
F2 == F(<<N, L(N)>>, N)
MN == M(N, N)
MS == M(S, N)

Members(t) == IF t.k = "union" THEN t.ts ELSE <<t>>
Anys == <<N, S, B, Z, R("r"), L(N)>>
Comparable == <<N, N, B, S, Z, L(N), R("r"), R("p"), UN, US, MN, L(L(N)), LU, UR>>

Lit(n) == [k |-> "num", v |-> n]
Var(x) == [k |-> "var", x |-> x]
Bin(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
Call(f, as) == [k |-> "call", f |-> f, as |-> as]
Top(d) == [k |-> "top", x |-> d.x, t |-> F([i \in 1..Len(d.ps) |-> d.ps[i].t], d.r)]
Block(ss, e) == [k |-> "block", ss |-> ss, e |-> e]
Just(e) == Block(<<>>, e)
(* Every function takes the parameter o (zero), and effects depend on it: expressions without free variables
   may be evaluated once for all. *)
Effect(n) == Bin("+", Var("o"), Lit(n))
Param(x, t) == [x |-> x, t |-> t]
Item(e) == [m |-> FALSE, e |-> e]
Spread(e) == [m |-> TRUE, e |-> e]

Tick == [x |-> "tick", ps |-> <<Param("x", N)>>, r |-> N, body |-> Just(Var("x"))]
Sum == [x |-> "sum", ps |-> <<Param("xs", L(N))>>, r |-> N,
        body |-> Just([k |-> "iflist", l |-> Var("xs"), x |-> "x", xs |-> "xs",
                       a |-> Just(Bin("+", Call(Var("x"), <<>>), Call([k |-> "top", x |-> "sum", t |-> F(<<L(N)>>, N)], <<Var("xs")>>))), b |-> Just(Lit(0))])]
Down == [x |-> "down", ps |-> <<Param("n", N)>>, r |-> L(N),
         body |-> Just([k |-> "if", c |-> Bin("<=", Var("n"), Lit(0)), a |-> Just([k |-> "list", t |-> N, es |-> <<>>]),
                        b |-> Block(<<[x |-> "m", t |-> N, e |-> Call([k |-> "top", x |-> "tick", t |-> FN], <<Var("n")>>)]>>,
                                    [k |-> "list", t |-> N, es |-> <<Item(Bin("-", Call([k |-> "top", x |-> "tick", t |-> FN], <<Bin("+", Var("m"), Lit(10))>>), Lit(10))),
                                     Spread(Call([k |-> "top", x |-> "down", t |-> F(<<N>>, L(N))], <<Bin("-", Var("n"), Lit(1))>>))>>])])]
Twice == [x |-> "twice", ps |-> <<Param("f", FN), Param("x", N)>>, r |-> N,
          body |-> Just(Call(Var("f"), <<Call(Var("f"), <<Var("x")>>)>>))]
Pick == [x |-> "pick", ps |-> <<Param("xs", L(N)), Param("n", N)>>, r |-> UE,
         body |-> Just([k |-> "iflist", l |-> Var("xs"), x |-> "y", xs |-> "ys",
                        a |-> Just([k |-> "if", c |-> Bin("==", Var("n"), Lit(0)), a |-> Just(Call(Var("y"), <<>>)),
                                    b |-> Just(Call([k |-> "top", x |-> "pick", t |-> F(<<L(N), N>>, UE)], <<Var("ys"), Bin("-", Var("n"), Lit(1))>>))]),
                        b |-> Just([k |-> "error", e |-> Var("n")])])]
Library == <<Tick, Sum, Down, Twice, Pick>>

Table(p) == [x \in {p[i].x : i \in 1..Len(p)} |-> p[CHOOSE i \in 1..Len(p) : p[i].x = x]]
=============================================================================
