------------------------------- MODULE Build --------------------------------
(* Packages, their modules, and what a build of the main package gives. External packages are fetched once, at the
   first build which reaches them, and stay as they were then; deleting all output lets them be fetched again.

   Each module exports a type T, a function Value of this type, and a mark, which no other module and no other version
   of it has. Its T is a number or a string; or it is the T of the first module which it imports ("alias"); or it is a
   number, and Value is the one of the first import nonetheless ("fixed"), which is right only if this is a number.

   Below the specification proper, a build system with a memory: it compiles only modules which it has to. What it keeps
   of each module is what its object was compiled from. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Show
VARIABLES src, snap, kept, last, old, h, start
vars == <<src, snap, kept, last, old, h, start>>

Externals == {"a", "b", "c"}
Packages == Externals \cup {"main"}
Modules == {"X", "Y"}
Aliases == {"A", "B"}
Nowhere == "-"
None == [none |-> TRUE]
Is(c) == "kind" \in DOMAIN c
Content(kind, imports, mark, fault) == [kind |-> kind, imports |-> imports, mark |-> mark, fault |-> fault]
Import(via, m) == [via |-> via, m |-> m]

(* ------------------------------------------------------------- the meaning of a project: a view gives each package *)
Target(view, p, i) == IF i.via = "own" THEN p ELSE view[p].deps[i.via]
Has(view, p, m) == p # Nowhere /\ Is(view[p].mods[m])
Needs(view, p) == {view[p].deps[x] : x \in Aliases} \ {Nowhere}
RECURSIVE Reach(_, _)
Reach(view, s) == LET t == s \cup UNION {Needs(view, p) : p \in s} IN IF t = s THEN s ELSE Reach(view, t)
Cyclic(view) == \E p \in Reach(view, {"main"}) : p \in Reach(view, Needs(view, p))
All(view) == {<<p, m>> \in Reach(view, {"main"}) \X Modules : Has(view, p, m)}
Imported(view, x) == {<<Target(view, x[1], i), i.m>> : i \in {view[x[1]].mods[x[2]].imports[j] : j \in DOMAIN view[x[1]].mods[x[2]].imports}}
RECURSIVE Type(_, _, _)
Type(view, x, fuel) ==
  LET c == view[x[1]].mods[x[2]] IN
  IF c.kind = "alias" THEN IF fuel = 0 THEN "none" ELSE Type(view, <<Target(view, x[1], c.imports[1]), c.imports[1].m>>, fuel - 1)
  ELSE IF c.kind = "string" THEN "string" ELSE "number"
(* A module is right if it and all which it imports are; modules in cycles are not. *)
Fuel == Cardinality(Packages) * Cardinality(Modules)
RECURSIVE Right(_, _, _)
Right(view, x, fuel) ==
  LET c == view[x[1]].mods[x[2]] IN
  /\ fuel > 0 /\ c.fault = "none"
  /\ \A y \in Imported(view, x) : IF Has(view, y[1], y[2]) THEN Right(view, y, fuel - 1) ELSE FALSE
  /\ c.kind = "fixed" => Type(view, <<Target(view, x[1], c.imports[1]), c.imports[1].m>>, fuel) = "number"
RightMain(view) == \A j \in DOMAIN view["main"].main : LET i == view["main"].main[j]  t == Target(view, "main", i) IN Has(view, t, i.m)
RECURSIVE Closure(_, _)
Closure(view, s) == LET t == s \cup UNION {Imported(view, x) : x \in s} IN IF t = s THEN s ELSE Closure(view, t)
(* Libraries need what their modules import only. *)
Compiled(view) == IF view["main"].application THEN All(view) ELSE Closure(view, {x \in All(view) : x[1] = "main"})
Succeeds(view) ==
  /\ ~Cyclic(view)
  /\ \A x \in {x \in All(view) : view["main"].application \/ x[1] = "main"} : Right(view, x, Fuel)
  /\ view["main"].application => view["main"].sys /\ RightMain(view)
Callee(view, x) == LET c == view[x[1]].mods[x[2]] IN
  IF c.imports = <<>> THEN 0 ELSE LET i == c.imports[1] IN view[Target(view, x[1], i)].mods[i.m].mark
Part(view, x) == [p |-> x[1], m |-> x[2], mark |-> view[x[1]].mods[x[2]].mark, type |-> Type(view, x, Fuel), calls |-> Callee(view, x)]
Parts(view) == {Part(view, x) : x \in Compiled(view)}
(* Objects of packages come before those which they depend on. *)
Before(view) == IF view["main"].application THEN {<<p, q>> \in Reach(view, {"main"}) \X Packages : q \in Reach(view, Needs(view, p))} ELSE {}

(* ------------------------------------------------------------- builds *)
View == [p \in Packages |-> IF p \in DOMAIN snap THEN snap[p] ELSE src[p]]
Fetched(view) == Reach(view, {"main"}) \ {"main"}
(* What the object of a module is made of: its text, and the interfaces of what it imports. *)
Key(view, x) == [content |-> view[x[1]].mods[x[2]], imports |-> [j \in DOMAIN view[x[1]].mods[x[2]].imports |->
                   LET i == view[x[1]].mods[x[2]].imports[j]  y == <<Target(view, x[1], i), i.m>> IN [of |-> y, type |-> Type(view, y, Fuel)]]]
(* Modules which may be compiled again: those whose text changed, and those which import such modules, near or far. *)
Changed(view, x) == x \notin DOMAIN kept \/ (x \in DOMAIN kept /\ kept[x] # Key(view, x))
RECURSIVE Affected(_, _)
Affected(view, s) == LET t == s \cup {x \in Compiled(view) : Imported(view, x) \cap s # {}} IN IF t = s THEN s ELSE Affected(view, t)

Log(o) == h' = Append(h, o)
Build ==
  LET v == View
      ok == Succeeds(v)
      got == [p \in Fetched(v) \cup DOMAIN snap |-> v[p]]
      todo == IF ok THEN {x \in Compiled(v) : Changed(v, x)} ELSE {}
  IN /\ snap' = got
     \* Builds which fail may have compiled anything.
     /\ kept' = IF ok THEN [x \in Compiled(v) |-> Key(v, x)] ELSE <<>>
     /\ old' = IF ok THEN Parts(v) ELSE old
     /\ last' = IF ok THEN [ok |-> TRUE, view |-> [p \in Reach(v, {"main"}) |-> v[p]]] ELSE [ok |-> FALSE]
     /\ Log([o |-> "build", ok |-> ok, parts |-> IF ok THEN Parts(v) ELSE {}, before |-> IF ok THEN Before(v) ELSE {},
             same |-> ok /\ last.ok /\ last' = last,
             again |-> IF ok THEN Affected(v, todo) ELSE {}])
     /\ UNCHANGED <<src, start>>
(* All output is deleted. *)
Clean == snap' = <<>> /\ kept' = <<>> /\ last' = [ok |-> FALSE] /\ old' = {} /\ Log([o |-> "clean"]) /\ UNCHANGED <<src, start>>

(* A package which is not there when it has to be fetched, and comes back after the build, which fails. *)
Lose(p) == /\ p \in Fetched(View) \ DOMAIN snap
           /\ last' = [ok |-> FALSE] /\ Log([o |-> "lose", p |-> p]) /\ UNCHANGED <<src, snap, kept, old, start>>

(* ------------------------------------------------------------- edits *)
Edit(p, s, o) == src' = [src EXCEPT ![p] = s] /\ Log(o) /\ UNCHANGED <<snap, kept, last, old, start>>
Write(p, m, c) == Edit(p, [src[p] EXCEPT !.mods[m] = c], [o |-> "write", p |-> p, m |-> m, c |-> c])
Delete(p, m) == Is(src[p].mods[m]) /\ Edit(p, [src[p] EXCEPT !.mods[m] = None], [o |-> "delete", p |-> p, m |-> m])
(* The text stays the same, but not the time of writing. *)
Touch(p, m) == Is(src[p].mods[m]) /\ Edit(p, src[p], [o |-> "touch", p |-> p, m |-> m])
Depend(p, a, q) == q # p /\ src[p].deps[a] # q /\ Edit(p, [src[p] EXCEPT !.deps[a] = q], [o |-> "depend", p |-> p, deps |-> [src[p].deps EXCEPT ![a] = q], sys |-> src[p].sys])
(* Two names trade places. *)
Swap(p) == src[p].deps["A"] # src[p].deps["B"]
  /\ LET d == [src[p].deps EXCEPT !["A"] = src[p].deps["B"], !["B"] = src[p].deps["A"]] IN
     Edit(p, [src[p] EXCEPT !.deps = d], [o |-> "depend", p |-> p, deps |-> d, sys |-> src[p].sys])
System(b) == src["main"].sys # b /\ Edit("main", [src["main"] EXCEPT !.sys = b], [o |-> "depend", p |-> "main", deps |-> src["main"].deps, sys |-> b])
Main(is) == src["main"].application /\ Edit("main", [src["main"] EXCEPT !.main = is], [o |-> "main", imports |-> is])

(* ------------------------------------------------------------- generation *)
Pick(S, x) == RandomElement(S)
Package(deps, x, y) == [deps |-> deps, mods |-> [m \in Modules |-> IF m = "X" THEN x ELSE y], sys |-> FALSE, application |-> FALSE, main |-> <<>>]
Deps(a, b) == [x \in Aliases |-> IF x = "A" THEN a ELSE b]
MainOf(p, application, imports) == [p EXCEPT !.application = application, !.sys = application, !.main = imports]
Leaf(n) == Content("number", <<>>, n, "none")
Starts == <<
  \* two packages with the same modules, one of which uses the other
  [main |-> MainOf(Package(Deps("a", "b"), Content("alias", <<Import("A", "X")>>, 4, "none"), None), TRUE, <<Import("own", "X")>>),
   a |-> Package(Deps("b", Nowhere), Content("alias", <<Import("A", "X")>>, 1, "none"), None), b |-> Package(Deps(Nowhere, Nowhere), Leaf(2), Leaf(5)), c |-> Package(Deps(Nowhere, Nowhere), Leaf(3), None)],
  \* a diamond
  [main |-> MainOf(Package(Deps("a", "b"), None, None), TRUE, <<Import("A", "X"), Import("B", "X")>>),
   a |-> Package(Deps("c", Nowhere), Content("fixed", <<Import("A", "X")>>, 1, "none"), None), b |-> Package(Deps("c", Nowhere), Content("alias", <<Import("A", "X")>>, 2, "none"), None), c |-> Package(Deps(Nowhere, Nowhere), Leaf(3), Leaf(4))],
  \* a chain within a package
  [main |-> MainOf(Package(Deps("c", Nowhere), Content("fixed", <<Import("own", "Y")>>, 4, "none"), Content("alias", <<Import("A", "X")>>, 5, "none")), TRUE, <<Import("own", "X")>>),
   a |-> Package(Deps("c", Nowhere), Leaf(1), None), b |-> Package(Deps("a", Nowhere), Leaf(2), None), c |-> Package(Deps(Nowhere, Nowhere), Leaf(3), None)],
  \* a library
  [main |-> MainOf(Package(Deps("a", Nowhere), Content("alias", <<Import("A", "X")>>, 4, "none"), None), FALSE, <<>>),
   a |-> Package(Deps("b", "c"), Leaf(1), None), b |-> Package(Deps(Nowhere, Nowhere), Leaf(2), None), c |-> Package(Deps(Nowhere, Nowhere), Leaf(3), None)]
>>
Rank(p) == CASE p = "main" -> 1 [] p = "a" -> 2 [] p = "b" -> 3 [] p = "c" -> 4
(* Mostly without cycles, and mostly of modules which are there. *)
Sane(p, m, i) == IF i.via = "own" THEN m = "X" /\ i.m = "Y" /\ Is(src[p].mods["Y"]) ELSE Has(src, src[p].deps[i.via], i.m)
Any1(p, m) == {Import(v, k) : v \in Aliases \cup {"own"}, k \in Modules}
Imports(p, m, odd) == LET s == {i \in Any1(p, m) : Sane(p, m, i)} IN IF odd THEN Any1(p, m) ELSE s
Mark == 10 + Len(h)
Edits ==
  \E k \in {Pick(1..16, h)}, odd \in {Pick(1..12, h)}, p \in {<<"main", "main", "main", "a", "b", "c">>[Pick(1..6, h)]}, m \in {Pick(Modules, h)}, a \in {Pick(Aliases, h)}, kind \in {Pick({"number", "string", "alias", "fixed"}, h)} :
  LET s == Imports(p, m, odd = 1)
      lower == {q \in Externals : Rank(q) > Rank(p)}
      there == Is(src[p].mods[m])
      simple == Write(p, m, Content(IF kind = "string" THEN kind ELSE "number", <<>>, Mark, "none"))
  IN
  CASE k \in 1..6 ->
         IF s = {} THEN simple
         ELSE \E i \in {Pick(s, h)}, j \in {Pick(s, h)}, two \in {Pick(1..3, h)} :
                Write(p, m, Content(kind, IF kind \in {"number", "string"} THEN <<>> ELSE IF two = 1 /\ i # j THEN <<i, j>> ELSE <<i>>, Mark,
                                    IF odd = 2 THEN "syntax" ELSE IF odd = 3 THEN "type" ELSE "none"))
    [] k = 7 -> IF there THEN Write(p, m, [src[p].mods[m] EXCEPT !.mark = Mark]) ELSE simple
    [] k = 8 -> IF there THEN Delete(p, m) ELSE simple
    [] k = 9 -> IF there THEN Touch(p, m) ELSE simple
    [] k \in {10, 11} -> LET t == (IF odd = 1 THEN Externals ELSE lower) \cup (IF k = 10 THEN {Nowhere} ELSE {})
                            u == t \ {p, src[p].deps[a]}
                        IN IF u = {} THEN simple ELSE \E q \in {Pick(u, h)} : Depend(p, a, q)
    [] k = 12 -> IF src[p].deps["A"] = src[p].deps["B"] THEN simple ELSE Swap(p)
    [] k = 13 -> IF ~src["main"].application THEN simple ELSE IF ~src["main"].sys THEN System(TRUE) ELSE IF odd < 4 THEN System(FALSE) ELSE simple
    [] k = 14 -> LET t == {i \in Any1("main", "main") : IF i.via = "own" THEN Is(src["main"].mods[i.m]) ELSE Has(src, src["main"].deps[i.via], i.m)}
                     u == IF odd = 1 \/ t = {} THEN Any1("main", "main") ELSE t
                 IN IF ~src["main"].application THEN simple ELSE \E i \in {Pick(u, h)}, j \in {Pick(u, h)} : Main(IF i = j THEN <<i>> ELSE <<i, j>>)
    [] k = 15 -> IF odd < 8 THEN Clean ELSE simple
    [] k = 16 -> LET wrong == {x \in Packages \X Modules : IF Is(src[x[1]].mods[x[2]]) THEN src[x[1]].mods[x[2]].fault # "none" ELSE FALSE} IN
                 IF wrong = {} THEN simple ELSE \E x \in {Pick(wrong, h)} : Write(x[1], x[2], [src[x[1]].mods[x[2]] EXCEPT !.fault = "none", !.mark = Mark])
Built == h # <<>> /\ h[Len(h)].o = "build"
Next == /\ Len(h) < MaxOps
        /\ \E z \in {Pick(1..5, h)}, y \in {Pick(1..2, h)} :
             LET lost == Fetched(View) \ DOMAIN snap IN
             IF lost # {} /\ y = 1 /\ Len(h) < MaxOps - 1 /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)].o # "lose")
             THEN \E p \in {Pick(lost, h)} : Lose(p)
             ELSE IF h = <<>> \/ h[Len(h)].o = "lose" \/ Len(h) = MaxOps - 1 \/ (IF Built THEN z = 5 /\ h[Len(h)].ok ELSE z < 3) THEN Build ELSE Edits
Init == /\ start \in DOMAIN Starts /\ src = Starts[start] /\ snap = <<>> /\ kept = <<>> /\ last = [ok |-> FALSE] /\ old = {} /\ h = <<>>
Spec == Init /\ [][Next]_vars

(* Modules which are not compiled again are as they were. *)
Kept == [][h'[Len(h')].o = "build" /\ h'[Len(h')].ok => \A x \in h'[Len(h')].parts : <<x.p, x.m>> \notin h'[Len(h')].again => x \in old]_vars
(* What was built twice without a change is the same, and needs nothing. *)
Nothing == Built /\ h[Len(h)].same => h[Len(h)].again = {}
(* Only what has been fetched is frozen. *)
Frozen == [][DOMAIN snap \subseteq DOMAIN snap' => \A p \in DOMAIN snap : snap'[p] = snap[p]]_vars
(* Types of parts agree with the parts which they call. *)
Agree == Built => \A x \in h[Len(h)].parts : x.calls # 0 => \E y \in h[Len(h)].parts : y.mark = x.calls /\ y.type = x.type
Marked == Built => \A x, y \in h[Len(h)].parts : x.mark = y.mark => x = y
Emit == (Show /\ Len(h) = MaxOps) => PrintT("@@" \o ToJson([start |-> start, src |-> Starts[start], h |-> h]))
=============================================================================
