------------------------------- MODULE Helpers ------------------------------
(* What the small helpers of the packages compute: command-line flags, booleans and lists of any values, assertions, random numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Kind, Longest

RECURSIVE SeqOf(_, _), Power(_, _), Upto(_, _)
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
Upto(b, n) == IF n = 0 THEN 1 ELSE Power(b, n) + Upto(b, n - 1)

(* Flags. An argument is a sequence of characters. *)
Arguments == << <<"-", "a">>, <<"-", "-">>, <<"x">>, <<"-", "b", "-">>, <<"-", "-", "c">>, <<>>, <<"y", "-">>, <<"-", "a", "a">> >>
Begins(a) == a # <<>> /\ a[1] = "-"
Separator == <<"-", "-">>
(* Named flags as a sequence of names with values, the later ones first. *)
RECURSIVE Flags(_, _)
Flags(as, named) ==
  IF as = <<>> THEN [ok |-> TRUE, named |-> named, positional |-> <<>>]
  ELSE IF as[1] = Separator THEN [ok |-> TRUE, named |-> named, positional |-> Tail(as)]
  ELSE IF ~Begins(as[1]) THEN [ok |-> TRUE, named |-> named, positional |-> as]
  ELSE IF Len(as) = 1 THEN [ok |-> FALSE]
  ELSE LET name == Tail(as[1]) IN Flags(SubSeq(as, 3, Len(as)), <<[n |-> name, v |-> as[2]]>> \o SelectSeq(named, LAMBDA e : e.n # name))

(* Elements of lists of the any type. *)
Elements == << [k |-> "none"], [k |-> "number", n |-> 1], [k |-> "number", n |-> 2], [k |-> "string", s |-> "a"], [k |-> "string", s |-> ""], [k |-> "boolean", b |-> TRUE], [k |-> "boolean", b |-> FALSE], [k |-> "list"] >>
OfKind(xs, k) == SelectSeq(xs, LAMBDA x : x.k = k)
Fallback == [k |-> "number", n |-> 9]
Listed(xs) == [xs |-> xs, first |-> IF xs = <<>> THEN Fallback ELSE xs[1], last |-> IF xs = <<>> THEN Fallback ELSE xs[Len(xs)],
               numbers |-> OfKind(xs, "number"), strings |-> OfKind(xs, "string"), booleans |-> OfKind(xs, "boolean")]
Truths(bs) == [bs |-> bs, some |-> \E j \in DOMAIN bs : bs[j], every |-> \A j \in DOMAIN bs : bs[j]]

Traces == IF Kind = "random" THEN JsonDeserialize(IOEnv.TRACES) ELSE <<>>
Total == CASE Kind = "flags" -> Upto(8, Longest) [] Kind = "lists" -> Upto(8, Longest) [] Kind = "booleans" -> Upto(2, Longest + 3) [] Kind = "random" -> Len(Traces)
VARIABLES i, done, case
vars == <<i, done, case>>
Case(n) ==
  CASE Kind = "flags" -> LET q == SeqOf(n, 8)
                             as == [j \in DOMAIN q |-> Arguments[q[j] + 1]]
                         IN [as |-> as, r |-> Flags(as, <<>>)]
    [] Kind = "lists" -> LET q == SeqOf(n, 8) IN Listed([j \in DOMAIN q |-> Elements[q[j] + 1]])
    [] Kind = "booleans" -> LET q == SeqOf(n, 2) IN Truths([j \in DOMAIN q |-> q[j] = 1])
    [] OTHER -> [n |-> n]
(* Random numbers, as millionths rounded down: all lie in the interval and they are not all the same. *)
Random(t) == (\A j \in DOMAIN t : t[j] \in 0..999999) /\ Cardinality({t[j] : j \in DOMAIN t}) > 1
Init == i \in 0..Total - 1 /\ done = FALSE /\ case = Case(i)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<i, case>>
        /\ IF Kind # "random" THEN PrintT("@@" \o ToJson(case)) ELSE Random(Traces[i + 1]) => PrintT("@@" \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
(* Nothing is lost: the arguments behind the named flags are the positional ones. *)
Kept == (Kind = "flags" /\ case.r.ok) =>
  \E j \in 0..Len(case.as) : SubSeq(case.as, j + 1, Len(case.as)) = case.r.positional /\ \A e \in {case.r.named[x] : x \in DOMAIN case.r.named} : \E x \in 1..j : x % 2 = 1 /\ case.as[x] = <<"-">> \o e.n /\ case.as[x + 1] = e.v
=============================================================================
