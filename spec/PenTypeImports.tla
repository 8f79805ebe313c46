--------------------------- MODULE PenTypeImports ----------------------------
(* What a module can do with the names of others: exported names begin with capitals, a name is used with the prefix of its
   module (its last part, or the one given by "as") or, if imported so, without any, fields of records are open outside their
   module if all their names begin with capitals, and records of different modules are different. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Capital(n) == \E i \in 1..26 : SubSeq(n, 1, 1) = SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i, i)
RecordsOf == ("Open" :> <<"X", "Y">>) @@ ("Shut" :> <<"x">>) @@ ("Mixed" :> <<"X", "y">>) @@ ("Empty" :> <<>>) @@ ("hidden" :> <<"X">>) @@ ("closed" :> <<"x">>)
AliasesOf == ("Alias" :> "hidden") @@ ("Other" :> "Shut") @@ ("Num" :> "number") @@ ("low" :> "number") @@ ("List" :> "[Open]")
MakersOf == ("MakeOpen" :> "Open") @@ ("MakeShut" :> "Shut") @@ ("MakeMixed" :> "Mixed") @@ ("MakeEmpty" :> "Empty") @@ ("MakeHidden" :> "hidden") @@ ("MakeClosed" :> "closed") @@ ("MakeAlias" :> "Alias") @@ ("makeOpen" :> "Open")
Open(r) == \A i \in DOMAIN RecordsOf[r] : Capital(RecordsOf[r][i])
Record(t) == IF t \in DOMAIN AliasesOf THEN AliasesOf[t] ELSE t

RECURSIVE Join(_, _, _)
Join(Text(_), s, i) == IF i > Len(s) THEN "" ELSE Text(s[i]) \o Join(Text, s, i + 1)
FieldText(f) == "  " \o f \o " number\n"
GivenText(f) == f \o ": 1, "
Construct(t, r) == IF RecordsOf[r] = <<>> THEN t \o "{}" ELSE t \o "{" \o Join(GivenText, RecordsOf[r], 1) \o "}"
RECURSIVE Many(_, _)
Many(Text(_), s) == IF s = {} THEN "" ELSE LET x == CHOOSE x \in s : TRUE IN Text(x) \o Many(Text, s \ {x})
TypeText(r) == "type " \o r \o " {\n" \o Join(FieldText, RecordsOf[r], 1) \o "}\n\n"
AliasText(a) == "type " \o a \o " = " \o AliasesOf[a] \o "\n\n"
MakerText(m) == m \o " = \\() " \o MakersOf[m] \o " {\n  " \o Construct(Record(MakersOf[m]), Record(MakersOf[m])) \o "\n}\n\n"
Common == Many(TypeText, DOMAIN RecordsOf) \o Many(AliasText, DOMAIN AliasesOf) \o Many(MakerText, DOMAIN MakersOf)
          \o "Two = \\(x number, y number) number {\n  bar(x + y)\n}\n\nbar = \\(x number) number {\n  x\n}\n"
Via == "import 'A\n\nPass = \\() A'Open {\n  A'MakeOpen()\n}\n\nTake = \\(x A'Open) number {\n  x.X\n}\n\nShow = \\(x A'Shut) none {\n  none\n}\n\nTwo = \\(x number) string {\n  \"s\"\n}\n"

(* How a module imports others: the text, and what each prefix means. *)
Forms == [plain   |-> [text |-> "import 'A\n", of |-> ("A'" :> "A")],
          renamed |-> [text |-> "import 'A as Q\n", of |-> ("Q'" :> "A")],
          both    |-> [text |-> "import 'A\nimport 'D\n", of |-> ("A'" :> "A") @@ ("D'" :> "D")],
          deep    |-> [text |-> "import 'Sub'A\n", of |-> ("A'" :> "Sub")],
          two     |-> [text |-> "import 'A as P\nimport 'Sub'A\n", of |-> ("P'" :> "A") @@ ("A'" :> "Sub")],
          via     |-> [text |-> "import 'C\n", of |-> ("C'" :> "C")],
          more    |-> [text |-> "import 'A\nimport 'C\n", of |-> ("A'" :> "A") @@ ("C'" :> "C")]]
Copies == {"A", "D", "Sub"}
Prefixes == {"A'", "Q'", "D'", "P'", "C'", ""}
Means(form, p) == IF p \in DOMAIN form.of THEN form.of[p] ELSE "none"
(* A form which imports one name without prefix. *)
Bare(n) == [text |-> "import 'A { " \o n \o " }\n", of |-> ("" :> "A")]

Fun(ps, r, e) == "f = \\(" \o ps \o ") " \o r \o " {\n  " \o e \o "\n}\n"
Case(form, rest, good) == [text |-> form.text \o "\n" \o rest, good |-> good]
(* What a module of the common text defines, by name. *)
Types == DOMAIN RecordsOf \cup DOMAIN AliasesOf
Sees(form, p, n) == n # "Missing" /\ Means(form, p) \in Copies /\ Capital(n)
(* An alias of a record can stand for it; other aliases have no fields. *)
IsRecord(t) == t # "Missing" /\ Record(t) \in DOMAIN RecordsOf
CasesOf(form, p, names) ==
  UNION {
    {Case(form, Fun("x " \o p \o t, "none", "none"), Sees(form, p, t)) : t \in (Types \cup {"Missing"}) \cap names},
    {Case(form, Fun("", "none", "x = " \o p \o m \o "()\n\n  none"), Sees(form, p, m)) : m \in (DOMAIN MakersOf) \cap names},
    {Case(form, Fun("", "number", p \o "Two(1, 2)"), Sees(form, p, "Two")) : m \in {"Two"} \cap names},
    {Case(form, Fun("", "number", p \o "Two(1)"), FALSE) : m \in {"Two"} \cap names},
    {Case(form, Fun("", "number", p \o "bar(1)"), FALSE) : m \in {"bar"} \cap names},
    {Case(form, Fun("", "none", "x = " \o Construct(p \o t, Record(t)) \o "\n\n  none"), Sees(form, p, t) /\ Open(Record(t))) : t \in {u \in Types \cap names : IsRecord(u)}},
    {Case(form, Fun("x " \o p \o t, "number", "x." \o RecordsOf[Record(t)][i]), Sees(form, p, t) /\ Open(Record(t))) :
       <<t, i>> \in {<<u, j>> \in (Types \cap names) \X (1..2) : IsRecord(u) /\ j \in DOMAIN RecordsOf[Record(u)]}},
    {Case(form, Fun("x " \o p \o t, p \o t, p \o t \o "{...x, " \o RecordsOf[Record(t)][1] \o ": 2}"), Sees(form, p, t) /\ Open(Record(t))) : t \in {u \in Types \cap names : IsRecord(u) /\ Record(u) # "Empty"}},
    {Case(form, Fun("x any", "number", "if x = x as " \o p \o t \o " {\n    1\n  } else {\n    2\n  }"), Sees(form, p, t)) : t \in {u \in Types \cap names : IsRecord(u)}},
    {Case(form, Fun("x number", p \o t, "x"), Sees(form, p, t) /\ t \in {"Num"}) : t \in {"Num", "low", "Open"} \cap names}
  }
(* Two names of the same module, or of different ones. *)
Pairs(form) == {<<p, q>> \in (Prefixes \ {""}) \X (Prefixes \ {""}) : Means(form, p) \in Copies /\ Means(form, q) \in Copies}
Meets(form) ==
  UNION {
    {Case(form, Fun("", pq[2] \o t, pq[1] \o m \o "()"), Sees(form, pq[1], m) /\ Sees(form, pq[2], t) /\ Means(form, pq[1]) = Means(form, pq[2]) /\ Record(MakersOf[m]) = Record(t)) :
       <<pq, m, t>> \in Pairs(form) \X (DOMAIN MakersOf) \X {"Open", "Shut", "Alias", "Other", "Empty"}},
    {Case(form, Fun("", "boolean", pq[1] \o "MakeOpen() == " \o pq[2] \o "MakeOpen()"), Means(form, pq[1]) = Means(form, pq[2])) : pq \in Pairs(form)},
    {Case(form, "type Open {\n  X number\n  Y number\n}\n\n" \o Fun("x " \o pq[1] \o "Open", "Open", "x"), FALSE) : pq \in Pairs(form)},
    {Case(form, "type Open {\n  X number\n  Y number\n}\n\n" \o Fun("x Open", pq[1] \o "Open", "x"), FALSE) : pq \in Pairs(form)},
    {Case(form, "type Open {\n  x number\n}\n\n" \o Fun("x Open", "Open", "Open{...x, x: 1}"), TRUE) : pq \in Pairs(form)},
    {Case(form, "type Open {\n  x number\n}\n\n" \o Fun("x " \o pq[1] \o "Open", "number", "x.X"), TRUE) : pq \in Pairs(form)},
    {Case(form, "Two = \\(x string) string {\n  x\n}\n\n" \o Fun("", "string", "Two(\"s\")"), TRUE) : pq \in Pairs(form)},
    {Case(form, "Two = \\(x string) string {\n  x\n}\n\n" \o Fun("", "number", pq[1] \o "Two(1, 2)"), TRUE) : pq \in Pairs(form)},
    {Case(form, "Two = \\(x string) string {\n  x\n}\n\n" \o Fun("", "string", pq[1] \o "Two(\"s\")"), FALSE) : pq \in Pairs(form)},
    {Case(form, Fun("", "number", pq[1] \o "MakeOpen().X"), TRUE) : pq \in Pairs(form)},
    {Case(form, Fun("", "number", pq[1] \o "MakeShut().x"), FALSE) : pq \in Pairs(form)},
    {Case(form, Fun("", "number", pq[1] \o "MakeMixed()." \o f), FALSE) : <<pq, f>> \in Pairs(form) \X {"X", "y"}},
    {Case(form, Fun("", "number", pq[1] \o "MakeClosed().x"), FALSE) : pq \in Pairs(form)}
  }
(* Names reach a module only through its own imports, values and types through those of others too. *)
Vias(form) ==
  LET c == Means(form, "C'") = "C"
      a == Means(form, "A'") = "A"
  IN {Case(form, Fun("", "number", "C'Take(C'Pass())"), c), Case(form, Fun("", "number", "C'Pass().X"), c), Case(form, Fun("", "number", "C'Take(A'MakeOpen())"), c /\ a),
      Case(form, Fun("", "none", "C'Show(A'MakeShut())"), c /\ a), Case(form, Fun("", "none", "C'Show(C'Pass())"), FALSE), Case(form, Fun("", "boolean", "C'Pass() == A'MakeOpen()"), c /\ a),
      Case(form, Fun("", "A'Open", "C'Pass()"), c /\ a), Case(form, Fun("x C'Open", "none", "none"), FALSE), Case(form, Fun("", "none", "x = C'MakeOpen()\n\n  none"), FALSE),
      Case(form, Fun("", "string", "C'Two(1)"), c), Case(form, Fun("", "number", "C'Two(1)"), FALSE), Case(form, Fun("", "number", "A'Two(1, 2)"), Means(form, "A'") \in Copies),
      Case(form, Fun("", "[number]", "[number C'Pass().X, C'Take(C'Pass())]"), c)}
(* A name imported without prefix gives way to variables of its own name. *)
Hides == {Case(Bare("Two"), Fun("Two number", "number", "Two"), TRUE), Case(Bare("Two"), Fun("", "string", "Two = \"s\"\n\n  Two"), TRUE),
          Case(Bare("Two"), Fun("Two number", "number", "Two(1, 2)"), FALSE), Case(Bare("Two"), Fun("", "number", "(\\(Two string) string {\n    Two\n  })(\"s\")\n\n  Two(1, 2)"), TRUE),
          Case(Bare("Two"), Fun("", "number", "MakeOpen().X"), FALSE), Case(Bare("Two, MakeOpen"), Fun("", "number", "Two(MakeOpen().X, 1)"), TRUE),
          Case(Bare("MakeOpen, Open"), Fun("", "Open", "MakeOpen()"), TRUE), Case(Bare("MakeOpen, Shut"), Fun("", "Shut", "MakeOpen()"), FALSE)}
Every == Types \cup DOMAIN MakersOf \cup {"Two", "bar", "Missing"}
Cases == UNION ({CasesOf(Forms[f], p, Every) : <<f, p>> \in (DOMAIN Forms) \X Prefixes} \cup {CasesOf(Bare(n), "", {n}) : n \in Every}
                \cup {Meets(Forms[f]) : f \in DOMAIN Forms} \cup {Vias(Forms[f]) : f \in DOMAIN Forms}) \cup Hides
VARIABLE done
S == INSTANCE SequencesExt
Init == done = FALSE /\ PrintT("@@" \o ToJson([a |-> Common, c |-> Via, cases |-> S!SetToSeq(Cases)]))
Next == ~done /\ done' = TRUE
=============================================================================
