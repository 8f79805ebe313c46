----------------------------- MODULE FormatTrace -----------------------------
(* Validates recorded runs of the formatter.  A run consists of the tokens and the comments of a   *)
(* source text, the lexemes of what the formatter made of it, whether formatting the result again  *)
(* reproduces it, and whether other blanks between the tokens of the source make no difference.    *)
(* A lexeme is a token <<kind, text, value>>, a comment <<"comment", text>>,  *)
(* a line break <<"nl">>, or a run of blanks <<"sp", width>>.                                       *)
EXTENDS PenSyntax, FiniteSets, TLC, TLCExt, Json, IOUtils

CONSTANT Aspect
VARIABLE n

Traces == JsonDeserialize(IOEnv.TRACES)

\* Positions do not matter, nor does the nesting of unions.
Nowhere(i) == 0
Members(t) == IF t[1] = "union" THEN SubSeq(t, 3, Len(t)) ELSE <<t>>
FlatUnion(lhs, rhs) == <<"union", 0>> \o Members(lhs) \o Members(rhs)

IsBlank(l) == l[1] \in {"nl", "sp"}
Tokens(ls) == SelectSeq(ls, LAMBDA l : ~IsBlank(l) /\ l[1] # "comment")
Comments(ls) == LET cs == SelectSeq(ls, LAMBDA l : l[1] = "comment") IN [i \in 1..Len(cs) |-> cs[i][2]]

\* The same elements, the same number of times
Bag(s) == [x \in { s[i] : i \in 1..Len(s) } |-> Cardinality({ i \in 1..Len(s) : s[i] = x })]
ImportMeaning(i) == <<i[3], i[4], Bag(i[5])>>
Meaning(tree) == IF tree = Reject THEN <<tree>>
                 ELSE <<Bag([i \in 1..Len(tree[1]) |-> ImportMeaning(tree[1][i])]), tree[2], tree[3], tree[4]>>

SameMeaning(t) == LET m == Meaning(Tree(t.source)) IN m # <<Reject>> /\ Meaning(Tree(Tokens(t.lexemes))) = m

SameComments(t) == Comments(t.lexemes) = t.comments

\* One line break at the end, none at the beginning, at most one empty line in a row, no blanks before line breaks
\* and no tabs, lines indented by multiples of two, one blank between lexemes of the same line
Laid(ls) ==
    LET k == Len(ls) IN
    IF k = 0 THEN TRUE
    ELSE /\ ls[k][1] = "nl"
         /\ ls[1][1] \notin {"nl", "sp"}
         /\ k > 1 => ls[k - 1][1] # "nl"
         /\ \A i \in 1..(k - 1) : ls[i][1] = "sp" =>
                /\ ls[i + 1][1] \notin {"nl", "sp"}
                /\ IF ls[i - 1][1] = "nl" THEN ls[i][2] % 2 = 0 ELSE ls[i][2] = 1
         /\ \A i \in 1..(k - 2) : ~(ls[i][1] = "nl" /\ ls[i + 1][1] = "nl" /\ ls[i + 2][1] = "nl")

Stable(t) == t.again /\ t.same /\ Laid(t.lexemes)

Accepted(t) == CASE Aspect = "meaning" -> SameMeaning(t)
                 [] Aspect = "comments" -> SameComments(t)
                 [] Aspect = "layout" -> Stable(t)

Init == n \in 1..Len(Traces)
Next == /\ n > 0
        /\ n' = 0 - n
        /\ IF Accepted(Traces[n]) THEN PrintT("@@" \o ToString(n)) ELSE TRUE
Spec == Init /\ [][Next]_n
=============================================================================
