-------------------------------- MODULE Html --------------------------------
(* Trees of elements, attributes and texts, and the markup which denotes them: what stands in texts and attributes must be
   read back as it is, and names that would be no names are refused. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Kind, Parts, Part

RECURSIVE SeqOf(_, _), Flat(_)
SeqOf(i, m) == IF i = 0 THEN <<>> ELSE SeqOf((i - 1) \div m, m) \o <<(i - 1) % m>>
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Chars == <<"<", ">", "&", "\"", "'", "/", "a", ";", " ", "l", "t", "=", "\\", "#", "x", "3", "q", "\n", "U+E9", "-", "[", "{">>

TextNode(s) == [text |-> s]
Element(tag, ats, ns) == [tag |-> tag, ats |-> ats, ns |-> ns]
IsText(n) == "text" \in DOMAIN n

(* Names: certainly good, certainly no names, or either. *)
Fine(s) == s # <<>> /\ (\A j \in DOMAIN s : s[j] \in Letters \cup {"-"}) /\ s[1] \in Letters
Wrong(s) == s = <<>> \/ \E j \in DOMAIN s : s[j] \in {"<", ">", "&", "\"", "'", "/", " ", "\n", "=", "\t"}
RECURSIVE AllFine(_), AnyWrong(_)
AllFine(n) == IsText(n) \/ (Fine(n.tag) /\ (\A j \in DOMAIN n.ats : Fine(n.ats[j].k)) /\ \A j \in DOMAIN n.ns : AllFine(n.ns[j]))
AnyWrong(n) == ~IsText(n) /\ (Wrong(n.tag) \/ (\E j \in DOMAIN n.ats : Wrong(n.ats[j].k)) \/ \E j \in DOMAIN n.ns : AnyWrong(n.ns[j]))

-----------------------------------------------------------------------------
(* Reading markup. *)
At(t, i) == IF i <= Len(t) THEN t[i] ELSE "end"
Starts(t, i, w) == \A j \in DOMAIN w : At(t, i + j - 1) = w[j]
Entities == << [e |-> <<"&", "l", "t", ";">>, c |-> "<"], [e |-> <<"&", "g", "t", ";">>, c |-> ">"], [e |-> <<"&", "a", "m", "p", ";">>, c |-> "&"], [e |-> <<"&", "q", "u", "o", "t", ";">>, c |-> "\""],
               [e |-> <<"&", "a", "p", "o", "s", ";">>, c |-> "'"], [e |-> <<"&", "#", "x", "2", "7", ";">>, c |-> "'"], [e |-> <<"&", "#", "3", "9", ";">>, c |-> "'"], [e |-> <<"&", "#", "3", "4", ";">>, c |-> "\""],
               [e |-> <<"&", "#", "x", "2", "2", ";">>, c |-> "\""], [e |-> <<"&", "#", "x", "2", "F", ";">>, c |-> "/"], [e |-> <<"&", "#", "x", "2", "f", ";">>, c |-> "/"], [e |-> <<"&", "#", "4", "7", ";">>, c |-> "/"] >>
Bad == [ok |-> FALSE]
Good(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
RECURSIVE Plain(_, _, _, _), Word(_, _), Blank(_, _), Attributes(_, _, _), Nodes(_, _, _), One(_, _)
(* Characters up to one that ends them, entities resolved; a markup character that is none of these is wrong. *)
Plain(t, i, ends, s) ==
  LET c == At(t, i) IN
  IF c = "end" \/ c \in ends THEN Good(s, i)
  ELSE IF c \in {"<", ">"} THEN Bad
  ELSE IF c = "&" THEN (LET es == {j \in DOMAIN Entities : Starts(t, i, Entities[j].e)} IN
                        IF es = {} THEN Bad ELSE LET e == Entities[CHOOSE j \in es : TRUE] IN Plain(t, i + Len(e.e), ends, Append(s, e.c)))
  ELSE Plain(t, i + 1, ends, Append(s, c))
Word(t, i) == IF At(t, i) \in {"end", "<", ">", "/", "=", "\"", "'", " ", "\n", "\t", "&"} THEN i ELSE Word(t, i + 1)
Blank(t, i) == IF At(t, i) \in {" ", "\n", "\t"} THEN Blank(t, i + 1) ELSE i
Attributes(t, a, ats) ==
  LET i == Blank(t, a)
      j == Word(t, i)
      k == SubSeq(t, i, j - 1)
  IN IF j = i THEN Good(ats, i)
     ELSE IF At(t, j) # "=" THEN Attributes(t, j, Append(ats, [k |-> k, v |-> <<>>]))
     ELSE IF At(t, j + 1) \notin {"\"", "'"} THEN Bad
     ELSE LET p == Plain(t, j + 2, {At(t, j + 1)}, <<>>) IN
          IF ~p.ok \/ At(t, p.i) = "end" THEN Bad ELSE Attributes(t, p.i + 1, Append(ats, [k |-> k, v |-> p.v]))
Nodes(t, i, ns) ==
  IF At(t, i) = "end" \/ Starts(t, i, <<"<", "/">>) THEN Good(ns, i)
  ELSE LET r == One(t, i) IN IF ~r.ok THEN Bad ELSE Nodes(t, r.i, Append(ns, r.v))
One(t, i) ==
  IF At(t, i) # "<" THEN (LET p == Plain(t, i, {"<"}, <<>>) IN IF p.ok THEN Good(TextNode(p.v), p.i) ELSE Bad)
  ELSE LET j == Word(t, i + 1)
           tag == SubSeq(t, i + 1, j - 1)
           as == Attributes(t, j, <<>>)
       IN IF tag = <<>> \/ ~as.ok THEN Bad
          ELSE IF Starts(t, as.i, <<"/", ">">>) THEN Good(Element(tag, as.v, <<>>), as.i + 2)
          ELSE IF At(t, as.i) # ">" THEN Bad
          ELSE LET ns == Nodes(t, as.i + 1, <<>>)
                   end == <<"<", "/">> \o tag
               IN IF ~ns.ok \/ ~Starts(t, ns.i, end) \/ At(t, Blank(t, ns.i + Len(end))) # ">" THEN Bad
                  ELSE Good(Element(tag, as.v, ns.v), Blank(t, ns.i + Len(end)) + 1)
(* Texts that follow each other are one; one without characters is none. *)
RECURSIVE Normal(_), Merged(_, _)
Merged(ns, out) ==
  IF ns = <<>> THEN out
  ELSE IF ~IsText(ns[1]) THEN Merged(Tail(ns), Append(out, Normal(ns[1])))
  ELSE IF ns[1].text = <<>> THEN Merged(Tail(ns), out)
  ELSE IF out # <<>> /\ IsText(out[Len(out)]) THEN Merged(Tail(ns), [out EXCEPT ![Len(out)] = TextNode(@.text \o ns[1].text)])
  ELSE Merged(Tail(ns), Append(out, ns[1]))
Normal(n) == IF IsText(n) THEN n ELSE Element(n.tag, n.ats, Merged(n.ns, <<>>))
RECURSIVE Equal(_, _)
Equal(a, b) == IF IsText(a) \/ IsText(b) THEN IsText(a) /\ IsText(b) /\ a.text = b.text
               ELSE a.tag = b.tag /\ a.ats = b.ats /\ Len(a.ns) = Len(b.ns) /\ \A j \in DOMAIN a.ns : Equal(a.ns[j], b.ns[j])
Denotes(t, n) == LET r == Nodes(t, 1, <<>>)
                     w == Merged(<<n>>, <<>>)
                     g == IF r.ok THEN Merged(r.v, <<>>) ELSE <<>>
                 IN r.ok /\ r.i = Len(t) + 1 /\ Len(g) = Len(w) /\ \A j \in DOMAIN g : Equal(g[j], w[j])
(* Rendering gives a text that denotes the tree, or an error if a name is none. *)
Right(t, n, error) == IF error THEN ~AllFine(n) ELSE ~AnyWrong(n) /\ Denotes(t, n)

-----------------------------------------------------------------------------
String(q) == [j \in 1..Len(q) |-> Chars[q[j] + 1]]
Names == << <<"a">>, <<"d", "i", "v">>, <<"h", "-", "z">>, <<"b", "o", "d", "y">>, <<"z">>, <<"x", "-", "a">>, <<"a", "-">> >>
Others == << <<>>, <<"<">>, <<"a", " ">>, <<"a", ">">>, <<"\"">>, <<"a", "=">>, <<"h", "3">>, <<"-">>, <<"a", "'">>, <<"/">>, <<"a", "/">>, <<" ", "a">>, <<"U+E9">>, <<"&">>, <<"a", "\n">>, <<"[">> >>
Pick(s, a) == s[RandomElement(a..Len(s))]
NameOf(a) == IF RandomElement(a..30) = 1 THEN Pick(Others, a) ELSE Pick(Names, a)
RECURSIVE RandomText(_), RandomNode(_), RandomNodes(_, _), RandomAts(_)
RandomText(n) == IF n = 0 THEN <<>> ELSE <<Pick(Chars, 1)>> \o RandomText(n - 1)
RandomAts(n) == IF n = 0 THEN <<>> ELSE <<[k |-> NameOf(1), v |-> RandomText(RandomElement(0..3))]>> \o RandomAts(n - 1)
RandomNodes(n, d) == IF n = 0 THEN <<>> ELSE <<RandomNode(d)>> \o RandomNodes(n - 1, d)
RandomNode(d) == IF d = 0 \/ RandomElement(1..4) = 1 THEN TextNode(RandomText(RandomElement(0..4))) ELSE Element(NameOf(1), RandomAts(RandomElement(0..2)), RandomNodes(RandomElement(0..3), d - 1))

Traces == IF Kind = "rendered" THEN JsonDeserialize(IOEnv.TRACES) ELSE <<>>
Total == CASE Kind = "texts" -> 1 + 22 + 484 + 10648 [] Kind = "names" -> 1 + 22 + 484 [] Kind = "trees" -> 900 [] Kind = "rendered" -> Len(Traces)
VARIABLES i, done, case
vars == <<i, done, case>>
Case(n) == CASE Kind \in {"texts", "names"} -> [s |-> String(SeqOf(n, 22))] [] Kind = "trees" -> [n |-> RandomNode(1 + (n % 3))] [] OTHER -> [s |-> n]
Init == i \in {n \in 0..Total - 1 : n % Parts = Part} /\ done = FALSE /\ case = Case(i)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<i, case>>
        /\ IF Kind # "rendered" THEN PrintT("@@" \o ToJson(case))
           ELSE LET t == Traces[i + 1] IN Right(t.t, t.n, t.error) => PrintT("@@" \o ToString(i + 1))
Spec == Init /\ [][Next]_vars
=============================================================================
