-------------------------------- MODULE Sql ---------------------------------
(* A table as programs see it through a pool of connections: rows of a key, a value of any kind, a number and a text.
   Every statement takes effect once or not at all, and gives the rows it selects or the number of rows it changed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Show
VARIABLES there,    \* whether the table exists
          rows,     \* key -> [v, n, s]
          h         \* statements with what they give
vars == <<there, rows, h>>

None == [k |-> "none"]
Num(x) == [k |-> "num", x |-> x]
Str(x) == [k |-> "str", x |-> x]
Bool(x) == [k |-> "bool", x |-> x]
(* What a database cannot take: text that is none, and values of other types. *)
Bad == {[k |-> "notext"], [k |-> "list"]}
Nums == {Num(x) : x \in {"zero", "one", "half", "minus", "huge", "tiny", "big", "third", "infinite"}}
(* Integers in the database, which need not fit in 32 bits. *)
Wides == {Num(x) : x \in {"zero", "one", "big", "wide", "minusWide", "edge", "second", "milliseconds"}}
Strs == {Str(x) : x \in {"empty", "a", "accent", "quote", "digits", "long", "null", "mark"}}
Values == {None} \cup Nums \cup Strs \cup {Bool(TRUE), Bool(FALSE)}
(* A boolean is kept as the number one or zero. *)
Kept(v) == IF v.k = "bool" THEN Num(IF v.x THEN "one" ELSE "zero") ELSE v
Keys == 1..4
Key(i) == [k |-> "key", x |-> i]
Ids == DOMAIN rows
Sorted(S) == LET RECURSIVE f(_)
                 f(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE m \in T : \A x \in T : m <= x IN <<m>> \o f(T \ {m})
             IN f(S)
Back(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Row(i) == <<Key(i), rows[i].v, rows[i].n, rows[i].s>>
Whole(ids) == [i \in DOMAIN ids |-> Row(ids[i])]
Ran(n) == [ok |-> TRUE, count |-> n]
Gave(rs) == [ok |-> TRUE, rows |-> rs]
Wrong == [ok |-> FALSE]
Init == there = FALSE /\ rows = <<>> /\ h = <<>>
(* A statement q with arguments a. *)
Step(q, a, r) == h' = Append(h, [q |-> q, a |-> a, r |-> r])
Fails(q, a) == UNCHANGED <<there, rows>> /\ Step(q, a, Wrong)
Gives(q, a, rs) == UNCHANGED <<there, rows>> /\ Step(q, a, Gave(rs))

Create == IF there THEN Fails("create", <<>>) ELSE there' = TRUE /\ rows' = <<>> /\ h' = Append(h, [q |-> "create", a |-> <<>>, r |-> [ok |-> TRUE]])
Drop == IF ~there THEN Fails("drop", <<>>) ELSE there' = FALSE /\ rows' = <<>> /\ h' = Append(h, [q |-> "drop", a |-> <<>>, r |-> [ok |-> TRUE]])
New(v, n, s) == [v |-> Kept(v), n |-> n, s |-> s]
With(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
Insert(i, v, n, s) ==
  LET a == <<Key(i), v, n, s>> IN
  IF ~there \/ i \in Ids THEN Fails("insert", a)
  ELSE rows' = With(rows, i, New(v, n, s)) /\ UNCHANGED there /\ Step("insert", a, Ran(1))
(* The same through a query, which gives the row as it is then. *)
InsertReturning(i, v) ==
  LET a == <<Key(i), v>> IN
  IF ~there \/ i \in Ids THEN Fails("insertReturning", a)
  ELSE rows' = With(rows, i, New(v, None, None)) /\ UNCHANGED there /\ Step("insertReturning", a, Gave(<<<<Kept(v), Key(i)>>>>))
(* Two rows in a statement, of which both or none come in. *)
InsertTwo(i, v, j, w) ==
  LET a == <<Key(i), v, Key(j), w>> IN
  IF ~there \/ i \in Ids \/ j \in Ids \/ i = j THEN Fails("insertTwo", a)
  ELSE rows' = With(With(rows, i, New(v, None, None)), j, New(w, None, None)) /\ UNCHANGED there /\ Step("insertTwo", a, Ran(2))
Update(q, ids, v, a) ==
  IF ~there THEN Fails(q, a)
  ELSE rows' = [i \in Ids |-> IF i \in ids THEN [rows[i] EXCEPT !.v = Kept(v)] ELSE rows[i]] /\ UNCHANGED there /\ Step(q, a, Ran(Cardinality(ids)))
Delete(q, ids, a) ==
  IF ~there THEN Fails(q, a)
  ELSE rows' = [i \in Ids \ ids |-> rows[i]] /\ UNCHANGED there /\ Step(q, a, Ran(Cardinality(ids)))
Select(q, ids, a) == IF ~there THEN Fails(q, a) ELSE Gives(q, a, Whole(ids))
Equals(v) == {i \in Ids : v # None /\ rows[i].v = Kept(v)}
(* Several statements at once, each of which puts in a row of its own. *)
Burst(ids) ==
  LET a == Sorted(ids) IN
  /\ there /\ ids \cap Ids = {}
  /\ rows' = [i \in Ids \cup ids |-> IF i \in ids THEN New(Num("half"), None, None) ELSE rows[i]]
  /\ UNCHANGED there
  /\ h' = Append(h, [q |-> "burst", a |-> [i \in DOMAIN a |-> <<Key(a[i]), Num("half")>>], r |-> [ok |-> TRUE, count |-> 1]])

Pick(S, x) == RandomElement(S)
Num0 == {None} \cup Nums
Str0 == {None} \cup Strs
Next == /\ Len(h) < MaxOps
        /\ \E k \in {IF h = <<>> THEN Pick({1, 1, 1, 3, 13}, h) ELSE Pick(1..29, h)}, i \in {Pick(Keys, h)}, j \in {Pick(Keys, h)},
             v \in {Pick(Values, h)}, w \in {Pick(Values, h)}, n \in {Pick(Num0, h)}, s \in {Pick(Str0, h)}, b \in {Pick(Bad, h)} :
             CASE k = 1 -> Create
               [] k = 2 -> IF Len(h) % 3 = 0 THEN Drop ELSE Create
               [] k \in 3..6 -> Insert(i, v, n, s)
               [] k = 7 -> InsertReturning(i, v)
               [] k = 8 -> InsertTwo(i, v, j, w)
               [] k = 9 -> Update("update", Ids \cap {i}, v, <<v, Key(i)>>)
               [] k = 10 -> Update("updateMany", {x \in Ids : x <= i}, v, <<v, Key(i)>>)
               [] k = 11 -> Delete("delete", Ids \cap {i}, <<Key(i)>>)
               [] k = 12 -> IF Len(h) % 3 = 0 THEN Delete("deleteAll", Ids, <<>>) ELSE Delete("deleteEqual", Equals(v), <<v>>)
               [] k \in 13..15 -> Select("all", Sorted(Ids), <<>>)
               [] k = 16 -> Select("descending", Back(Sorted(Ids)), <<>>)
               [] k = 17 -> Select("one", Sorted(Ids \cap {i}), <<Key(i)>>)
               [] k = 18 -> Select("equal", Sorted(Equals(v)), <<v>>)
               [] k = 19 -> Select("between", Sorted({x \in Ids : i <= x /\ x <= j}), <<Key(i), Key(j)>>)
               [] k \in 20..21 -> LET a == <<v, w, n, s>> IN Gives("echo", a, <<[x \in DOMAIN a |-> Kept(a[x])]>>)
               [] k = 22 -> \E q \in {Pick({"syntax", "noTable", "noColumn", "notext"}, h)}, z \in {Pick(BOOLEAN, h)} :
                              UNCHANGED <<there, rows>> /\ h' = Append(h, [q |-> q, a |-> <<>>, r |-> Wrong, reads |-> z])
               [] k = 23 -> Fails("echo", <<v, b, n, s>>)
               [] k = 24 -> Fails("insert", <<Key(i), b, n, s>>)
               [] k = 25 -> IF there THEN Gives("count", <<>>, <<<<Key(Cardinality(Ids))>>>>) ELSE Fails("count", <<>>)
               [] k = 28 -> \E x \in {Pick(Wides, h)}, y \in {Pick(Wides, h)}, z \in {Pick(Strs, h)} :
                              UNCHANGED <<there, rows>> /\ h' = Append(h, [q |-> "literals", a |-> <<>>, literals |-> <<x, y, z>>, r |-> Gave(<<<<x, y, z>>>>)])
               [] k = 29 -> \E u \in {Pick({0, 1, 2, 255, 256, 257, 300, 1000, 1025, 3000}, h)}, z \in {Pick(BOOLEAN, h)} :
                              UNCHANGED <<there, rows>> /\ h' = Append(h, [q |-> IF z THEN "many" ELSE "manyDown", a |-> <<Key(u)>>, r |-> [ok |-> TRUE, upto |-> u]])
               [] k \in 26..27 -> IF there THEN \E ids \in {Pick(SUBSET (Keys \ Ids), h)} : Burst(ids) ELSE Create
Spec == Init /\ [][Next]_vars

TypeOK == /\ Ids \subseteq Keys
          /\ there \in BOOLEAN /\ (~there => Ids = {})
          /\ \A i \in Ids : rows[i].v \in Values /\ rows[i].n \in Num0 /\ rows[i].s \in Str0
(* What fails and what selects changes nothing. *)
Quiet == [][LET s == h'[Len(h')] IN (~s.r.ok \/ s.q \in {"all", "descending", "one", "equal", "between", "echo", "count", "literals", "many", "manyDown"}) => UNCHANGED <<there, rows>>]_vars
(* The number of changed rows is the number of rows which differ, where as many can. *)
Counted == [][LET s == h'[Len(h')] IN s.q \in {"insert", "insertTwo", "delete", "deleteAll", "deleteEqual"} /\ s.r.ok
                => s.r.count = Cardinality(DOMAIN rows' \ Ids) + Cardinality(Ids \ DOMAIN rows')]_vars
Emit == (Show /\ Len(h) = MaxOps) => PrintT("@@" \o ToJson([h |-> h, there |-> there, rows |-> Whole(Sorted(Ids))]))
=============================================================================
