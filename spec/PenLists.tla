------------------------------ MODULE PenLists ------------------------------
(* All short lists of every kind that the grammar has: with separators left out or repeated, with  *)
(* repeated names, empty ones, and ones with the wrong kind of an element.                         *)
EXTENDS PenSyntax, TLC, Json
CONSTANTS Length, Kinds, Separators
VARIABLES kind, list

S(x) == <<"sg", x, x>>
K(x) == <<"kw", x, x>>
I(x) == <<"id", x, x>>
One == <<"num", "1", "1">>
Open == <<"call", "(", "(">>

Items == [
  record |-> { <<I("a"), S(":"), One>>, <<I("b"), S(":"), One>>, <<S("..."), One>> },
  update |-> { <<I("a"), S(":"), One>>, <<I("b"), S(":"), One>>, <<I("c"), S(":"), One>> },
  call |-> { <<I("v")>>, <<One>> },
  list |-> { <<One>>, <<S("..."), I("v")>>, <<One, S(":"), One>> },
  map |-> { <<One, S(":"), I("v")>>, <<S("..."), I("v")>>, <<I("v")>> },
  names |-> { <<I("a")>>, <<One>> },
  iteratees |-> { <<I("a")>>, <<One>> },
  args |-> { <<I("a"), I("t")>>, <<I("a"), S("["), I("t"), S("]")>>, <<I("a")>> },
  ftype |-> { <<I("t")>>, <<S("\\("), S(")"), I("t")>> },
  union |-> { <<I("t")>>, <<S("\\("), S(")"), I("t")>>, <<S("("), I("t"), S(")")>> } ]
Before == [
  record |-> <<I("r"), S("{")>>, update |-> <<I("r"), S("{"), S("..."), I("v"), S(",")>>, call |-> <<I("f"), Open>>, list |-> <<S("["), I("t")>>,
  map |-> <<S("{"), I("k"), S(":"), I("t")>>, names |-> <<S("["), I("t"), I("v"), K("for")>>, iteratees |-> <<S("["), I("t"), I("v"), K("for"), I("x"), K("in")>>,
  args |-> <<S("\\(")>>, ftype |-> <<S("["), S("\\(")>>, union |-> <<S("["), S("(")>> ]
After == [
  record |-> <<S("}")>>, update |-> <<S("}")>>, call |-> <<S(")")>>, list |-> <<S("]")>>, map |-> <<S("}")>>, names |-> <<K("in"), I("v"), S("]")>>,
  iteratees |-> <<S("]")>>, args |-> <<S(")"), I("t"), S("{"), I("v"), S("}")>>, ftype |-> <<S(")"), I("t"), S("]")>>, union |-> <<S(")"), S("]")>> ]
Separator(k, s) == IF s = "," /\ k = "union" THEN <<S("|")>> ELSE IF s = "," THEN <<S(",")>> ELSE IF s = "|" THEN <<S("|"), S(",")>> ELSE IF s = ",," THEN <<S(","), S(",")>> ELSE <<>>

\* An element and what follows it
Init == kind \in Kinds /\ list = <<>>
Next == /\ Len(list) < Length
        /\ \E e \in Items[kind], s \in Separators : list' = Append(list, <<e, s>>)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, list>>

RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l)[1] \o Separator(kind, Head(l)[2]) \o Flat(Tail(l))
Text_ == <<I("f"), S("="), S("\\("), S(")"), I("t"), S("{")>> \o Before[kind] \o Flat(list) \o After[kind] \o <<S("}")>>

\* A list with one separator between any two elements and at most one after the last is in the grammar, if its elements are
\* right and, in a record, distinct.
Right == [record |-> { e \in Items.record : e[1][1] = "id" }, update |-> Items.update, call |-> Items.call,
          list |-> { e \in Items.list : Len(e) < 3 }, map |-> { e \in Items.map : e[1] # I("v") },
          names |-> { <<I("a")>> }, iteratees |-> Items.iteratees, args |-> { e \in Items.args : Len(e) > 1 }, ftype |-> Items.ftype,
          union |-> { e \in Items.union : e[1] # S("\\(") } ]
Separated == \A i \in 1..Len(list) : list[i][2] = "," \/ (i = Len(list) /\ list[i][2] = "")
Regular == /\ Separated
           /\ \A i \in 1..Len(list) : list[i][1] \in Right[kind]
           /\ kind \in {"record", "update"} => \A i, j \in 1..Len(list) : i # j => list[i][1] # list[j][1]
           /\ kind \in {"update", "names", "iteratees", "union"} => list # <<>>
           /\ kind = "union" => list[Len(list)][2] = ""
Accepted == Regular => Tree(Text_) # Reject
Emit == PrintT("@@" \o ToJson([toks |-> Text_, tree |-> Tree(Text_), regular |-> Regular]))
=============================================================================
