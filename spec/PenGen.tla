------------------------------- MODULE PenGen -------------------------------
(* Derivations of the grammar of Pen: the states are sentential forms (the tokens derived so far   *)
(* and the symbols still to derive), a step rewrites the leftmost nonterminal by one of its        *)
(* productions, and a derived program may be damaged by edits of tokens before it is submitted.    *)
(* Every submitted text is printed with the tree that PenSyntax assigns to it.                     *)
EXTENDS PenSyntax, FiniteSets, TLC, Json, Randomization, IOUtils

CONSTANTS Fuel, Edits
VARIABLES stack, out, inside, fuel, edits, done

N(x) == <<"nt", x>>
S(x) == <<"sg", x, x>>
K(x) == <<"kw", x, x>>
I(x) == <<"id", x, x>>
Q(x, v) == <<"qual", x, v>>
P(x) == <<"path", x, x>>
Num(x, v) == <<"num", x, v>>
SNum(x) == <<"snum", x, x>>
Str(v) == <<"str", v, v>>
Open == <<"call", "(", "(">>
MapOpen == <<"sg", "{", "map">>

\* The first production of every nonterminal leads to the end of the derivation.
Grammar == [
  module |-> << <<N("imports"), N("foreigns"), N("types"), N("def"), N("defs")>>, <<N("imports"), N("foreigns"), N("types"), N("def"), N("defs")>>,
               <<N("imports"), N("foreigns"), N("types")>> >>,
  imports |-> << <<>>, <<N("import"), N("imports")>>, <<N("import"), N("imports")>> >>,
  import |-> << <<K("import"), N("path")>>, <<K("import"), N("path"), K("as"), N("id")>>,
                <<K("import"), N("path"), S("{"), N("id"), N("ids"), S("}")>>,
                <<K("import"), N("path"), K("as"), N("id"), S("{"), N("id"), N("ids"), N("comma"), S("}")>> >>,
  path |-> << <<P("'Foo")>>, <<P("'foo'bar")>>, <<P("'B'a'C")>>, <<P("Pkg'Mod'Sub")>>, <<Q("Os'File", "public")>>, <<Q("a'Zed", "public")>>,
              <<P("'A")>>, <<Q("Core'Number", "public")>>, <<P("_x'A'B'C")>> >>,
  foreigns |-> << <<>>, <<>>, <<>>, <<K("import"), K("foreign"), N("id"), N("type"), N("foreigns")>>,
                  <<K("import"), K("foreign"), Str("c"), N("id"), N("type"), N("foreigns")>> >>,
  types |-> << <<>>, <<>>, <<K("type"), N("id"), S("="), N("type"), N("types")>>,
               <<K("type"), N("id"), S("{"), N("fielddefs"), S("}"), N("types")>> >>,
  fielddefs |-> << <<>>, <<N("id"), N("type"), N("fielddefs")>>, <<N("id"), N("type"), N("fielddefs")>> >>,
  defs |-> << <<>>, <<N("def"), N("defs")>>, <<N("def"), N("defs")>> >>,
  def |-> << <<N("id"), S("="), N("lambda")>>, <<N("id"), S("="), N("lambda")>>, <<N("id"), S("="), N("lambda")>>,
             <<K("foreign"), N("id"), S("="), N("lambda")>>, <<K("foreign"), Str("c"), N("id"), S("="), N("lambda")>> >>,
  type |-> << <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("atype"), S("|"), N("atype")>>, <<N("atype"), S("|"), N("atype"), S("|"), N("atype")>>,
              <<S("\\("), S(")"), N("type")>>, <<S("\\("), N("type"), N("typelist"), N("comma"), S(")"), N("type")>>, <<N("atype")>> >>,
  atype |-> << <<N("name")>>, <<N("name")>>, <<N("name")>>, <<N("name")>>, <<S("["), N("type"), S("]")>>, <<S("{"), N("type"), S(":"), N("type"), S("}")>>, <<S("("), N("type"), S(")")>> >>,
  typelist |-> << <<>>, <<S(","), N("type"), N("typelist")>> >>,
  comma |-> << <<>>, <<>>, <<S(",")>> >>,
  ids |-> << <<>>, <<S(","), N("id"), N("ids")>> >>,
  id |-> << <<I("x")>>, <<I("y")>>, <<I("foo")>>, <<I("Bar")>>, <<I("iffy")>>, <<I("as1")>>, <<I("forX")>>, <<I("_in")>>, <<I("typed")>>, <<I("else_")>>,
            <<I("importer")>>, <<I("inner")>>, <<I("foreigner")>>, <<I("z9")>>, <<I("if_")>>, <<I("for_all")>>, <<I("in_")>>, <<I("as_")>>,
            <<I("import_")>>, <<I("type_1")>>, <<I("foreign_")>>, <<I("elseX")>> >>,
  name |-> << <<N("id")>>, <<N("id")>>, <<I("number")>>, <<I("none")>>, <<I("string")>>, <<Q("A'b", "private")>>, <<Q("foo'Bar", "public")>>, <<Q("_'x1", "private")>> >>,
  lambda |-> << <<S("\\("), N("args"), S(")"), N("type"), N("block")>> >>,
  args |-> << <<>>, <<N("id"), N("type"), N("argrest"), N("comma")>>, <<N("id"), N("type"), N("argrest"), N("comma")>> >>,
  argrest |-> << <<>>, <<S(","), N("id"), N("type"), N("argrest")>> >>,
  block |-> << <<S("{"), N("stmts"), N("expr"), S("}")>> >>,
  stmts |-> << <<>>, <<>>, <<N("id"), S("="), N("expr0"), N("stmts")>>, <<N("id"), S("="), N("expr0"), N("stmts")>>, <<N("expr"), N("stmts")>> >>,
  \* expressions that start with any token; after an operator, a separator or an equal sign also with a signed number
  expr |-> << <<N("operand")>>, <<N("operand")>>, <<N("operand"), N("op"), N("expr0")>>, <<N("operand"), N("op"), N("operand0"), N("op"), N("expr0")>> >>,
  expr0 |-> << <<N("operand0")>>, <<N("operand0")>>, <<N("operand0"), N("op"), N("expr0")>> >>,
  op |-> << <<S("+")>>, <<S("-")>>, <<S("*")>>, <<S("/")>>, <<S("==")>>, <<S("!=")>>, <<S("<")>>, <<S("<=")>>, <<S(">")>>, <<S(">=")>>, <<S("&")>>, <<S("|")>> >>,
  operand0 |-> << <<N("operand")>>, <<N("operand")>>, <<N("operand")>>, <<SNum("-1")>>, <<SNum("+2.5")>>, <<SNum("-0.5e-3")>> >>,
  operand |-> << <<N("name")>>, <<N("name"), N("suffixes")>>, <<N("atom"), N("suffixes")>>, <<N("atom"), N("suffixes")>>, <<N("atom"), N("suffixes")>>, <<S("!"), N("operand")>> >>,
  suffixes |-> << <<>>, <<>>, <<Open, N("exprs"), S(")"), N("suffixes")>>, <<S("."), N("id"), N("suffixes")>>, <<S("?"), N("suffixes")>> >>,
  exprs |-> << <<>>, <<N("expr0"), N("exprrest"), N("comma")>>, <<N("expr0"), N("exprrest"), N("comma")>> >>,
  exprrest |-> << <<>>, <<>>, <<S(","), N("expr0"), N("exprrest")>> >>,
  atom |-> << <<N("name")>>, <<N("num")>>, <<N("str")>>, <<S("("), N("expr0"), S(")")>>, <<S("("), N("operand"), N("op"), N("operand0"), S(")")>>, <<S("("), S("!"), N("operand"), S(")")>>,
              <<N("lambda")>>, <<N("if")>>, <<N("if")>>, <<N("record")>>, <<N("list")>>, <<N("comp")>>, <<N("map")>> >>,
  num |-> << <<Num("1", "1")>>, <<Num("0", "0")>>, <<Num("42", "42")>>, <<Num("3.14", "3.14")>>, <<Num("1e9", "1e9")>>, <<Num("2E-3", "2E-3")>>, <<Num("0b1011", "0b1011")>>, <<Num("0x1F", "0x1f")>>,
             <<Num("0xdeadBEEF", "0xdeadbeef")>>, <<Num("007", "007")>>, <<Num("10.", "10.")>> >>,
  str |-> << <<Str("")>>, <<Str("foo")>>, <<Str("# no comment")>>, <<Str("\\\"")>>, <<Str("\\\\")>>, <<Str("a\\nb\\t\\r")>>, <<Str("\\x7f\\xFF")>>, <<Str("if x { } // \\\" #")>>, <<Str("\\\\\\\"#")>> >>,
  cond |-> << <<N("name")>>, <<N("name"), N("suffixes")>>, <<N("name"), N("op"), N("expr0")>>, <<S("!"), N("operand")>>, <<N("num"), N("op"), N("expr0")>>, <<S("("), N("expr0"), S(")"), N("suffixes")>> >>,
  if |-> << <<K("if"), N("cond"), N("block"), K("else"), N("block")>>,
            <<K("if"), N("cond"), N("block"), N("elifs"), K("else"), N("block")>>,
            <<K("if"), S("["), N("id"), S(","), S("..."), N("id"), S("]"), S("="), N("expr0"), N("block"), K("else"), N("block")>>,
            <<K("if"), N("id"), S("="), N("expr0"), S("["), N("expr"), S("]"), N("block"), K("else"), N("block")>>,
            <<K("if"), N("id"), S("="), N("expr0"), K("as"), N("type"), N("block"), N("typeelifs")>>,
            <<K("if"), N("id"), S("="), N("expr0"), K("as"), N("type"), N("block"), N("typeelifs"), K("else"), N("block")>> >>,
  elifs |-> << <<>>, <<K("else"), K("if"), N("cond"), N("block"), N("elifs")>> >>,
  typeelifs |-> << <<>>, <<K("else"), K("if"), N("type"), N("block"), N("typeelifs")>> >>,
  record |-> << <<N("name"), S("{"), S("}")>>, <<N("name"), S("{"), I("a"), S(":"), N("expr0"), N("comma"), S("}")>>,
                <<N("name"), S("{"), I("b"), S(":"), N("expr0"), S(","), I("x"), S(":"), N("expr0"), N("comma"), S("}")>>,
                <<N("name"), S("{"), I("y"), S(":"), N("expr0"), S(","), I("b"), S(":"), N("expr0"), S(","), I("a"), S(":"), N("expr0"), N("comma"), S("}")>>,
                <<N("name"), S("{"), S("..."), N("expr0"), S(","), I("b"), S(":"), N("expr0"), S(","), I("c"), S(":"), N("expr0"), N("comma"), S("}")>>,
                <<N("name"), S("{"), S("..."), N("expr0"), S(","), I("y"), S(":"), N("expr0"), N("comma"), S("}")>> >>,
  elem |-> << <<N("expr0")>>, <<N("expr0")>>, <<S("..."), N("expr0")>> >>,
  elems |-> << <<>>, <<S(","), N("elem"), N("elems")>> >>,
  list |-> << <<S("["), N("type"), S("]")>>, <<S("["), N("type"), N("elem"), N("elems"), N("comma"), S("]")>>, <<S("["), N("type"), N("elem"), N("elems"), N("comma"), S("]")>> >>,
  comp |-> << <<S("["), N("type"), N("expr0"), N("for"), N("fors"), S("]")>> >>,
  fors |-> << <<>>, <<>>, <<N("for"), N("fors")>> >>,
  for |-> << <<K("for"), N("id"), K("in"), N("expr0")>>, <<K("for"), N("id"), N("ids"), N("comma"), K("in"), N("expr0"), N("exprrest"), N("comma")>>,
             <<K("for"), N("id"), N("ids"), K("in"), N("expr0"), N("exprrest"), K("if"), N("cond")>> >>,
  entry |-> << <<N("expr0"), S(":"), N("expr0")>>, <<N("expr0"), S(":"), N("expr0")>>, <<S("..."), N("expr0")>> >>,
  entries |-> << <<>>, <<S(","), N("entry"), N("entries")>> >>,
  map |-> << <<MapOpen, N("type"), S(":"), N("type"), S("}")>>, <<MapOpen, N("type"), S(":"), N("type"), N("entry"), N("entries"), N("comma"), S("}")>> >>
]

\* Tokens that edits insert
Vocabulary == { S(s) : s \in BinaryOperators \cup {"!", "?", "=", "(", ")", "[", "]", "{", "}", ",", ".", "...", ":", "\\("} }
    \cup { K(k) : k \in Keywords } \cup { I(x) : x \in {"x", "y", "iff", "for_", "Any"} } \cup { Open, Num("5", "5"), Str("c"), Str(""), Q("A'b", "private"), P("'Foo"), P("A'B'C") }
    \cup { <<"bad", t, t>> : t \in {"\"\\q\"", "\"\\x4\"", "A'if", "0b2", "0xg", "$", "1e", "@", "\\", "a'b'c", "\"", "~"} }

OperandEnd(t) == t[1] \in {"id", "qual", "num", "snum", "str"} \/ t[2] \in {")", "]", "}", "?"}
\* Labels of record fields
Labels(ts) == { i \in 1..(Len(ts) - 1) : ts[i][1] = "id" /\ ts[i + 1] = S(":") }
\* A signed number after an operand would be read as an operation on that operand.
Readable(ts) == \A i \in 2..Len(ts) : ts[i][1] = "snum" => ~OperandEnd(ts[i - 1])

\* A name before a map literal whose first key type is a name looks like a record; the grammar
\* leaves open what such a text means, if it means anything.
Open_(ts, i) == IsName(ts, i) /\ IsSign(ts, i + 1, "{") /\ IsId(ts, i + 2) /\ IsSign(ts, i + 3, ":")
Decided(ts) == Readable(ts) /\ (Tree(ts) = Reject \/ \A i \in 1..Len(ts) : Open_(ts, i) => Record(ts, i).ok)

\* Terminals move to the output; those derived from a type are marked (a type is followed by a mark).
Mark == <<"mark">>
Ends(s) == Cardinality({ i \in 1..Len(s) : s[i] = Mark })
RECURSIVE Shift(_, _, _)
Shift(o, m, s) == IF s = <<>> THEN [out |-> o, inside |-> m, stack |-> s]
                  ELSE IF Head(s)[1] = "nt" THEN [out |-> o, inside |-> m, stack |-> s]
                  ELSE IF Head(s) = Mark THEN Shift(o, m, Tail(s))
                  ELSE Shift(Append(o, Head(s)), Append(m, IF Ends(s) > 0 THEN 1 ELSE 0), Tail(s))
Body(x, p) == IF x[2] = "type" THEN Append(p, Mark) ELSE p

Init == /\ stack \in {<<N("module")>>, <<N("def")>>, <<N("def"), N("defs")>>}
        /\ out = <<>> /\ inside = <<>> /\ fuel \in 20..Fuel /\ edits \in 0..Edits /\ done = FALSE

Expand ==
    /\ stack # <<>>
    /\ LET ps == Grammar[Head(stack)[2]] IN
       \E k \in {IF fuel <= 0 THEN 1 ELSE RandomElement(1..Len(ps))} :
            LET r == Shift(out, inside, Body(Head(stack), ps[k]) \o Tail(stack)) IN stack' = r.stack /\ out' = r.out /\ inside' = r.inside
    /\ fuel' = fuel - 1
    /\ UNCHANGED <<edits, done>>

Edit ==
    /\ stack = <<>> /\ edits > 0 /\ out # <<>>
    /\ edits' = edits - 1
    /\ \E i \in {RandomElement(1..Len(out))}, t \in {RandomElement(Vocabulary)}, kind \in {RandomElement(1..8)}, n \in {Len(out)} :
       \E p \in {IF Labels(out) = {} THEN i ELSE RandomElement(Labels(out))} : \E q \in {IF Labels(out) = {} THEN i ELSE RandomElement(Labels(out))} :
          out' = CASE kind = 1 -> SubSeq(out, 1, i - 1) \o SubSeq(out, i + 1, n)
                   [] kind = 2 -> SubSeq(out, 1, i) \o SubSeq(out, i, n)
                   [] kind = 3 -> SubSeq(out, 1, i - 1) \o <<t>> \o SubSeq(out, i, n)
                   [] kind = 4 -> SubSeq(out, 1, i - 1) \o <<t>> \o SubSeq(out, i + 1, n)
                   [] kind = 5 -> IF i < n THEN SubSeq(out, 1, i - 1) \o <<out[i + 1], out[i]>> \o SubSeq(out, i + 2, n) ELSE out \o <<t>>
                   [] kind = 6 -> SubSeq(out, 1, i)
                   [] kind = 8 -> [out EXCEPT ![p] = out[q]]
                   [] kind = 7 -> IF out[i][2] = "(" THEN [out EXCEPT ![i] = IF out[i][1] = "call" THEN S("(") ELSE Open]
                                  ELSE SubSeq(out, 1, i) \o <<t>> \o SubSeq(out, i + 1, n)
    /\ UNCHANGED <<stack, inside, fuel, done>>

\* How each token is separated from the one before it (see checks/lang_common.py); one layout style per text
Styles == { <<0, 0, 0, 1>>, <<1>>, <<0, 1, 2>>, <<1, 2, 3, 4, 5, 6>>, <<2, 7, 7, 8, 8, 9, 10>>, <<1, 1, 1, 1, 2, 2, 7, 8>>, <<11>> }
Layout(ts, dummy) ==
    LET style == RandomElement(Styles) IN [i \in 1..(Len(ts) + 1) |-> style[RandomElement(1..Len(style))]]

Submit ==
    /\ stack = <<>> /\ edits = 0 /\ ~done
    /\ done' = TRUE
    /\ IF Decided(out) THEN PrintT("@@" \o ToJson([toks |-> out, tree |-> Tree(out), inside |-> inside, layout |-> Layout(out, fuel)]))
       ELSE TRUE
    /\ UNCHANGED <<stack, out, inside, fuel, edits>>

Next == Expand \/ Edit \/ Submit
Spec == Init /\ [][Next]_<<stack, out, inside, fuel, edits, done>>

\* Whatever the grammar derives has a tree, unless a map literal follows a name and might be a record.
Unambiguous(ts) == \A i \in 2..Len(ts) : ts[i] = MapOpen => ts[i - 1][1] \notin {"id", "qual"}
Derived == (stack = <<>> /\ Edits = 0 /\ Readable(out) /\ Unambiguous(out)) => Tree(out) # Reject
=============================================================================
