-------------------------------- MODULE Doc --------------------------------
(* Documentation of packages.  The source of a module is written line by line: imports, foreign    *)
(* imports, type definitions, function definitions, in that order, with comments and empty lines   *)
(* in between.  Document says what the documentation of the package consists of, line by line.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Lines, Modules, Exhaustive    \* bounds on the lines (items, comments, blanks) of a module and on the modules
VARIABLES finished, lines, phase, size, private, done

\* A line of the source: its text, and what a comment line says ("#" marks other lines); blanks around that are dropped
Code(t) == [text |-> t, comment |-> "#"]
Remark(before, t, after) == [text |-> before \o t \o after, comment |-> t]
Blank == Code("")

\* What is written in one step: lines of code, and for definitions their name, section and documented code.
\* The place of the definition is its first line.
Item(phase_, ls, name, code) == [phase |-> phase_, lines |-> ls, name |-> name, code |-> code]
Import(t) == Item(1, <<t>>, "", <<>>)
Foreign(t) == Item(2, <<t>>, "", <<>>)
Alias(n, t) == Item(3, <<"type " \o n \o " = " \o t>>, n, <<"type " \o n \o " = " \o t>>)
\* Records with private fields are shown without their fields.
Record(n, fields, open) ==
    LET source == IF fields = <<>> THEN <<"type " \o n \o " {}">> ELSE <<"type " \o n \o " {">> \o [i \in 1..Len(fields) |-> "  " \o fields[i]] \o <<"}">>
    IN Item(3, source, n, IF open THEN source ELSE <<"type " \o n \o " {", "  # ...", "}">>)
Function(prefix, n, signature, body) ==
    Item(4, <<prefix \o n \o " = " \o signature[1]>> \o SubSeq(signature, 2, Len(signature)) \o body, n, signature)
\* The body of a function begins on the last line of its signature.
Closed(prefix, n, signature, body) ==
    LET k == Len(signature)
        source == [i \in 1..k |-> (IF i = 1 THEN prefix \o n \o " = " ELSE "") \o signature[i] \o (IF i = k THEN " {" ELSE "")]
    IN Item(4, source \o body, n, signature)

Publics == {"Foo", "F", "A9_z"}
Privates == {"foo", "_Foo", "zED"}
Names == Publics \cup Privates

AllItems ==
    { Import(t) : t \in {"import 'Foo", "import Core'Number { Foo }"} }
    \cup { Foreign("import foreign \"c\" f \\() none") }
    \cup { Alias(n, "number | none") : n \in Names }
    \cup { Record(n, <<>>, TRUE) : n \in {"Foo"} }
    \cup { Record(n, fs, TRUE) : n \in Names, fs \in {<<"Foo number">>, <<"X number", "Y \\(Foo) [Bar]">>} }
    \cup { Record(n, fs, FALSE) : n \in Names, fs \in {<<"foo number">>, <<"X number", "y string">>, <<"x number", "Y none">>} }
    \cup { Closed(p, n, s, b) :
             p \in {"", "foreign "}, n \in Names,
             s \in {<<"\\() none">>, <<"\\(x number, y Foo'Bar) number | none">>, <<"\\(", "  foo number,", "  Bar \\() {string: any},", ") none">>},
             b \in {<<"  none", "}">>, <<"  # inner", "  none", "}">>, <<"  # one", "", "  x = none # two", "  x", "  # three", "}">>} }
SmallItems == { Import("import 'Foo"), Alias("Foo", "none"), Alias("foo", "none"), Record("Foo", <<"foo none">>, FALSE),
                Closed("", "Foo", <<"\\() none">>, <<"  none", "  # inner", "}">>), Closed("", "foo", <<"\\(", "  x Bar,", ") none">>, <<"  none", "}">>) }
Items == IF Exhaustive THEN SmallItems ELSE AllItems

Publish(n) == n \in Publics \ private

\* A step may put a comment behind the code of a line; that comment belongs to no definition.
Behind == IF Exhaustive THEN {"", " # behind"} ELSE {"", "", " # behind", " #behind"}
Remarks == IF Exhaustive THEN {Remark("# ", "note", ""), Remark("  #", "text", " ")}
           ELSE {Remark("#", "", ""), Remark("# ", "note", ""), Remark("  #", "text", " "), Remark("# ", "`code` **x**", ""), Remark("\t#", "# heading", "  "),
            Remark("#\t ", "type Foo = none", "")}

Init == finished = <<>> /\ lines = <<>> /\ phase = 1 /\ size = 0 /\ private \in SUBSET {"Foo", "F", "foo"} /\ done = FALSE
InitSmall == finished = <<>> /\ lines = <<>> /\ phase = 1 /\ size = 0 /\ private \in {{}, {"Foo"}} /\ done = FALSE

\* All choices in small models, random ones in simulations
Some(s) == IF Exhaustive THEN s ELSE {RandomElement(s)}
Write == /\ size < Lines /\ ~done /\ Len(finished) < Modules
         /\ size' = size + 1
         /\ UNCHANGED <<finished, private, done>>
WriteItem ==
    /\ Write
    /\ \E at \in Some(phase..4), b \in Some(Behind) : \E i \in Some({x \in Items : x.phase = at}) :
          /\ phase' = i.phase
          /\ lines' = lines \o [k \in 1..Len(i.lines) |->
                 [text |-> i.lines[k] \o (IF k = Len(i.lines) THEN b ELSE ""), comment |-> "#",
                  item |-> IF k = 1 THEN i ELSE <<>>]]
Plain(l) == [text |-> l.text, comment |-> l.comment, item |-> <<>>]
WriteRemark == /\ Write /\ \E r \in Some(Remarks) : lines' = Append(lines, Plain(r))
               /\ UNCHANGED phase
WriteBlank == /\ Write /\ lines' = Append(lines, Plain(Blank))
              /\ UNCHANGED phase

Finish == /\ ~done /\ Len(finished) < Modules
          /\ finished' = Append(finished, lines)
          /\ lines' = <<>> /\ phase' = 1 /\ size' = 0
          /\ UNCHANGED <<private, done>>

(* ------------------------------------------------------------------------------ documentation *)
IsRemark(ls, i) == i \in 1..Len(ls) /\ ls[i].comment # "#"
\* The lines of comments that end at line i, or that begin at line i
RECURSIVE Up(_, _), Down(_, _)
Up(ls, i) == IF IsRemark(ls, i) THEN Append(Up(ls, i - 1), ls[i].comment) ELSE <<>>
Down(ls, i) == IF IsRemark(ls, i) THEN <<ls[i].comment>> \o Down(ls, i + 1) ELSE <<>>

Starts(ls) == { i \in 1..Len(ls) : ls[i].item # <<>> }
Least(s) == CHOOSE i \in s : \A j \in s : i <= j
\* The comment at the top of a module is the module's unless it belongs to its first item.
Top(ls) == LET c == Down(ls, 1) IN
           IF Starts(ls) # {} /\ Len(c) + 1 = Least(Starts(ls)) THEN <<>> ELSE c

Text(c) == IF c = <<>> THEN <<>> ELSE <<"">> \o c
Fence(language, code) == <<"", "```" \o language>> \o code \o <<"```">>
RECURSIVE Entries(_, _, _)
Entries(ls, i, section) ==
    IF i > Len(ls) THEN <<>>
    ELSE LET x == ls[i].item IN
         IF x = <<>> THEN Entries(ls, i + 1, section)
         ELSE IF x.phase # section \/ ~Publish(x.name) THEN Entries(ls, i + 1, section)
         ELSE <<"", "#### `" \o x.name \o "`">> \o Text(Up(ls, i - 1)) \o Fence("pen", x.code) \o Entries(ls, i + 1, section)
Section(title, none, es) == <<"", "### " \o title>> \o (IF es = <<>> THEN <<"", none>> ELSE es)

ModuleText(path, ls) ==
    <<"", "## `" \o path \o "` module">> \o Text(Top(ls))
    \o Section("Types", "No types are defined.", Entries(ls, 1, 3))
    \o Section("Functions", "No functions are defined.", Entries(ls, 1, 4))

\* In the order of the documentation; modules with private names in their paths are not documented.
Paths == << [path |-> "Foo'Bar", public |-> TRUE], [path |-> "Foo'Bar'Baz", public |-> TRUE], [path |-> "Foo'Bar'baz", public |-> FALSE],
            [path |-> "Foo'Foo", public |-> TRUE], [path |-> "Foo'foo'Bar", public |-> FALSE], [path |-> "foo'Z", public |-> TRUE],
            [path |-> "'A'B", public |-> TRUE], [path |-> "'A'b", public |-> FALSE], [path |-> "'Z", public |-> TRUE] >>

Head_ == << "# `Foo` package", "", "About.", "", "```json", "{", "  \"type\": \"library\"", "}", "```", "",
            "## Install", "", "```json", "{", "  \"dependencies\": {", "    \"Foo\": \"https://foo.test/\"", "  } ", "}", "```" >>

RECURSIVE All(_, _)
All(places, k) ==
    IF k > Len(places) THEN <<>>
    ELSE (IF Paths[places[k]].public THEN ModuleText(Paths[places[k]].path, finished[k]) ELSE <<>>) \o All(places, k + 1)
Document(places) == Head_ \o All(places, 1)

Increasing(p) == \A i, j \in 1..Len(p) : i < j => p[i] < p[j]
Places == LET n == Len(finished) IN { p \in [1..n -> 1..Len(Paths)] : Increasing(p) }

Submit ==
    /\ ~done /\ size = 0 /\ finished # <<>>
    /\ done' = TRUE
    /\ \E p \in IF Exhaustive THEN {<<1>>} ELSE {RandomElement(Places)} :
          PrintT("@@" \o ToJson([modules |-> [k \in 1..Len(finished) |-> <<Paths[p[k]].path, [i \in 1..Len(finished[k]) |-> finished[k][i].text]>>],
                                 private |-> private, doc |-> Document(p)]))
    /\ UNCHANGED <<finished, lines, phase, size, private>>

Next == WriteItem \/ WriteRemark \/ WriteBlank \/ Finish \/ Submit
Spec == Init /\ [][Next]_<<finished, lines, phase, size, private, done>>
SpecSmall == InitSmall /\ [][Next]_<<finished, lines, phase, size, private, done>>

\* Nothing private is documented, and every public definition is documented once.
Count(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
Sound ==
    \A k \in 1..Len(finished) :
        LET ls == finished[k]
            t == ModuleText("M", ls)
        IN \A n \in Publics \cup Privates :
              Count(t, "#### `" \o n \o "`")
              = IF Publish(n) THEN Cardinality({ i \in Starts(ls) : ls[i].item.name = n }) ELSE 0
=============================================================================
