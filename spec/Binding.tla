------------------------------- MODULE Binding -------------------------------
(* Calls of Rust functions exported with the binding attribute (property C07).                                       *)
(* A signature is a sequence of parameter types, a result kind, and whether (and how often) the function suspends.   *)
(* Its body records the call and builds its result from its arguments, so that the specified outcome of a call is a  *)
(* function of the arguments: a lost, swapped, repeated or damaged argument or result shows.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxExh,     \* all parameter lists up to this length
          MaxArgs, Longer \* length and number of random longer ones
VARIABLES sig, calls
Types == <<"n", "s", "b", "l", "a", "e", "f">>
TypeSet == {Types[i] : i \in 1..7}
Kinds == <<"number", "string", "boolean", "none", "unit", "list", "any", "error", "ok", "err", "okunit", "box", "boxerr", "float">>
Styles == <<"tail", "let", "return", "question", "block">>
\* values: [t, d] with d the description of what is inside
Values == [n |-> << <<"n", "0">>, <<"n", "1.5">>, <<"n", "-3">> >>,
           s |-> << <<"s", "''">>, <<"s", "'ab'">>, <<"s", "'a longer text of more than one word'">> >>,
           b |-> << <<"b", "t">>, <<"b", "f">>, <<"b", "t">> >>,
           l |-> << <<"l", "[]">>, <<"l", "[1,'x']">>, <<"l", "[t]">> >>,
           a |-> << <<"a", "7">>, <<"a", "'any'">>, <<"a", "none">> >>,
           e |-> << <<"e", "error('bad')">>, <<"e", "error(4)">>, <<"e", "error(none)">> >>,
           f |-> << <<"f", "2.25">>, <<"f", "0">>, <<"f", "-1">> >>]
RECURSIVE Digest(_)
Digest(vs) == IF vs = <<>> THEN "" ELSE Head(vs)[2] \o ";" \o Digest(Tail(vs))
Result(kind, vs) ==
    LET d == Digest(vs)  q == "'" \o d \o "'" IN
    CASE kind = "number" \/ kind = "float" -> ToString(Len(d))
      [] kind = "boolean" -> IF Len(d) % 2 = 0 THEN "t" ELSE "f"
      [] kind \in {"none", "unit", "okunit"} -> "none"
      [] kind \in {"string", "any", "ok", "box"} -> q
      [] kind = "list" -> "[" \o q \o "," \o ToString(Len(vs)) \o "]"
      [] kind \in {"error", "err", "boxerr"} -> "error(" \o q \o ")"
H(ts) == LET RECURSIVE h(_) h(s) == IF s = <<>> THEN 5 ELSE (h(Tail(s)) * 3 + (CHOOSE i \in 1..7 : Types[i] = Head(s)) * 5) % 97 IN h(ts)
\* the values passed in call number c
Args(ts, c) == [i \in DOMAIN ts |-> Values[ts[i]][((i * i + c + H(ts)) % 3) + 1]]
Sequences(n) == UNION {[1..k -> TypeSet] : k \in 0..n}
Sig(ts, async, kind, style) == [ts |-> ts, async |-> async, kind |-> kind, style |-> style, sus |-> IF async THEN (H(ts) + Len(kind)) % 4 ELSE 0]
Calls(s) == [c \in 1..3 |-> [args |-> Args(s.ts, c), result |-> Result(s.kind, Args(s.ts, c)), seen |-> Digest(Args(s.ts, c))]]
Init == /\ calls = <<>>
        /\ \/ \E ts \in Sequences(1), async \in BOOLEAN, k \in 1..14 : sig = Sig(ts, async, Kinds[k], Styles[((H(ts) + k) % 5) + 1])
           \/ \E ts \in Sequences(MaxExh), async \in BOOLEAN : sig = Sig(ts, async, Kinds[((H(ts) + Len(ts)) % 14) + 1], Styles[(H(ts) % 5) + 1])
           \/ \E x \in 1..Longer, async \in BOOLEAN :
                 \E ts \in {[i \in 1..(2 + (x % (MaxArgs - 1))) |-> Types[((x * x + i * x * 3 + i * i) % 7) + 1]]} :
                    sig = Sig(ts, async, Kinds[(x % 14) + 1], Styles[(x % 5) + 1])
Next == calls = <<>> /\ calls' = Calls(sig) /\ UNCHANGED sig
\* every parameter type at every position, every kind of result, both with and without suspension, is generated
Emit == calls # <<>> => PrintT("@@" \o ToJson([sig |-> sig, calls |-> calls]))
=============================================================================
