------------------------------- MODULE PenText -------------------------------
(* The lexical level of Pen inside a block: words, string literals with their escapes, comments    *)
(* and blanks, read character by character.  Every text of at most Length characters is explored.  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Length, Alphabet
VARIABLES text, mode, done, current, comments, bad

Letter(c) == c \in {"a", "n", "x"}
Blank(c) == c \in {" ", "\n"}
EmptyWord == ""

Init == text = <<>> /\ mode = "blank" /\ done = <<>> /\ current = "" /\ comments = <<>> /\ bad = FALSE

\* done: finished items <<kind, value, index of the first character>>
Begin(c, items) ==
    IF c = "\"" THEN mode' = "string" /\ current' = "" /\ done' = Append(items, <<"str", "", Len(text) + 1>>) /\ UNCHANGED <<comments, bad>>
    ELSE IF c = "#" THEN mode' = "comment" /\ current' = "" /\ done' = items /\ comments' = Append(comments, <<Len(text) + 1, "">>) /\ UNCHANGED bad
    ELSE IF Letter(c) THEN mode' = "word" /\ current' = c /\ done' = Append(items, <<"var", c, Len(text) + 1>>) /\ UNCHANGED <<comments, bad>>
    ELSE IF Blank(c) THEN mode' = "blank" /\ current' = "" /\ done' = items /\ UNCHANGED <<comments, bad>>
    ELSE mode' = "blank" /\ current' = "" /\ done' = items /\ bad' = TRUE /\ UNCHANGED comments      \* a lone backslash or a digit

Grow(c) == /\ done' = [done EXCEPT ![Len(done)] = <<@[1], @[2] \o c, @[3]>>]
           /\ UNCHANGED <<comments, bad, current>>

Read(c) ==
    /\ Len(text) < Length /\ ~bad
    /\ text' = Append(text, c)
    /\ CASE mode = "blank" -> Begin(c, done)
         [] mode = "word" -> IF Letter(c) \/ c = "4" THEN mode' = "word" /\ Grow(c) ELSE Begin(c, done)
         [] mode = "comment" -> IF c = "\n" THEN mode' = "blank" /\ UNCHANGED <<done, current, comments, bad>>
                                ELSE /\ mode' = "comment" /\ comments' = [comments EXCEPT ![Len(comments)] = <<@[1], @[2] \o c>>]
                                     /\ UNCHANGED <<done, current, bad>>
         [] mode = "string" -> IF c = "\"" THEN mode' = "blank" /\ UNCHANGED <<done, current, comments, bad>>
                               ELSE mode' = (IF c = "\\" THEN "escape" ELSE "string") /\ Grow(c)
         [] mode = "escape" -> IF c \in {"\"", "\\", "n"} THEN mode' = "string" /\ Grow(c)
                               ELSE IF c = "x" THEN mode' = "hex1" /\ Grow(c)
                               ELSE mode' = "string" /\ bad' = TRUE /\ UNCHANGED <<done, current, comments>>
         [] mode \in {"hex1", "hex2"} -> IF c \in {"a", "4"} THEN mode' = (IF mode = "hex1" THEN "hex2" ELSE "string") /\ Grow(c)
                                         ELSE mode' = "string" /\ bad' = TRUE /\ UNCHANGED <<done, current, comments>>

Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_<<text, mode, done, current, comments, bad>>

Digit == mode = "blank" /\ bad /\ text # <<>> /\ text[Len(text)] = "4"      \* numbers are not modelled here
Accepted == ~bad /\ mode \in {"blank", "word", "comment"} /\ done # <<>>
Unterminated == ~bad /\ mode \in {"string", "escape", "hex1", "hex2"}
Emit == (text # <<>> /\ ~Digit) =>
          PrintT("@@" \o ToJson([text |-> text, ok |-> Accepted, items |-> done, comments |-> comments, unterminated |-> Unterminated]))

\* A comment never contains a line end; what is accepted accounts for every character that is no blank.
RECURSIVE Sum(_, _)
Sum(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + Sum(f, n - 1)
ItemLength(k) == Len(done[k][2]) + IF done[k][1] = "str" THEN 2 ELSE 0
CommentLength(k) == 1 + Len(comments[k][2])
BlankHere(k) == IF Blank(text[k]) THEN 1 ELSE 0
InItem(k) == \E i \in 1..Len(done) : done[i][3] <= k /\ k < done[i][3] + ItemLength(i)
InComment(k) == \E i \in 1..Len(comments) : comments[i][1] <= k /\ k < comments[i][1] + CommentLength(i)
Exact == Accepted => \A k \in 1..Len(text) : (InItem(k) \/ InComment(k) \/ Blank(text[k])) /\ ~(InItem(k) /\ InComment(k))
=============================================================================
