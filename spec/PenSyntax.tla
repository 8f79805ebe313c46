------------------------------ MODULE PenSyntax ------------------------------
(* The concrete and the abstract syntax of Pen modules.                                            *)
(*                                                                                                 *)
(* A text is seen as a sequence of tokens <<kind, text, value>> (white space and comments between  *)
(* them carry no meaning, except that an opening parenthesis calls what stands immediately before  *)
(* it: such a parenthesis has the kind "call").  Tree(ts) is the abstract syntax tree the grammar  *)
(* assigns to the token sequence ts, or Reject when the grammar does not derive ts.  Every node    *)
(* carries the index of the token at which it is positioned.                                       *)
EXTENDS Naturals, Sequences

Keywords == {"as", "else", "export", "for", "foreign", "if", "in", "import", "type"}
BinaryOperators == {"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&", "|"}
Priority(op) ==
    CASE op = "|" -> 1
      [] op = "&" -> 2
      [] op \in {"==", "!=", "<", "<=", ">", ">="} -> 3
      [] op \in {"+", "-"} -> 4
      [] op \in {"*", "/"} -> 5

Reject == <<"reject">>
Fail == [ok |-> FALSE]
Ok(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
None == <<>>
End == <<"end", "", "">>

At(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE End
IsSign(ts, i, s) == LET t == At(ts, i) IN t[2] = s /\ (t[1] = "sg" \/ (t[1] = "call" /\ s = "("))
IsKey(ts, i, w) == LET t == At(ts, i) IN t[1] = "kw" /\ t[2] = w
IsId(ts, i) == At(ts, i)[1] = "id"
IsName(ts, i) == At(ts, i)[1] \in {"id", "qual"}
Text(ts, i) == ts[i][2]

\* What the trees record of positions and of the nesting of unions (redefined where that does not matter)
Here(i) == i
Union(lhs, rhs) == <<"union", lhs[2], lhs, rhs>>

(* A tree is what a sequence of operands and binary operators denotes when its root is the last of *)
(* the operators of the lowest priority: left associativity, higher priorities first.              *)
RECURSIVE Group(_, _, _)
Group(operands, operators, ps) ==
    IF Len(operators) = 0 THEN operands[1]
    ELSE LET low == CHOOSE k \in 1..Len(operators) :
                        /\ \A j \in 1..Len(operators) : Priority(operators[k]) <= Priority(operators[j])
                        /\ \A j \in (k + 1)..Len(operators) : Priority(operators[k]) < Priority(operators[j])
         IN <<"bin", ps[low], operators[low],
              Group(SubSeq(operands, 1, low), SubSeq(operators, 1, low - 1), SubSeq(ps, 1, low - 1)),
              Group(SubSeq(operands, low + 1, Len(operands)), SubSeq(operators, low + 1, Len(operators)), SubSeq(ps, low + 1, Len(ps)))>>

RECURSIVE Type(_, _), UnionRest(_, _, _), TypeList(_, _, _), Expr(_, _), Operations(_, _, _, _, _), Operand(_, _), Suffixes(_, _, _),
          Atom(_, _), ExprList(_, _, _), Block(_, _), Statements(_, _, _), Lambda(_, _), Arguments(_, _, _), IfBranches(_, _, _),
          TypeBranches(_, _, _), RecordFields(_, _, _), Elements(_, _, _), Entries(_, _, _), Names(_, _, _), CompBranches(_, _, _)

(* -------------------------------------------------------------------------------------- types *)
AtomicType(ts, i) ==
    IF IsName(ts, i) THEN Ok(<<"ref", Here(i), Text(ts, i)>>, i + 1)
    ELSE IF IsSign(ts, i, "[") THEN
        LET e == Type(ts, i + 1) IN
        IF e.ok /\ IsSign(ts, e.i, "]") THEN Ok(<<"tlist", Here(i), e.v>>, e.i + 1) ELSE Fail
    ELSE IF IsSign(ts, i, "{") THEN
        LET k == Type(ts, i + 1) IN
        IF ~(k.ok /\ IsSign(ts, k.i, ":")) THEN Fail
        ELSE LET v == Type(ts, k.i + 1) IN
             IF v.ok /\ IsSign(ts, v.i, "}") THEN Ok(<<"tmap", Here(i), k.v, v.v>>, v.i + 1) ELSE Fail
    ELSE IF IsSign(ts, i, "(") THEN
        LET t == Type(ts, i + 1) IN
        IF t.ok /\ IsSign(ts, t.i, ")") THEN Ok(t.v, t.i + 1) ELSE Fail
    ELSE Fail

UnionRest(ts, i, lhs) ==
    IF ~IsSign(ts, i, "|") THEN Ok(lhs, i)
    ELSE LET r == AtomicType(ts, i + 1) IN
         IF r.ok THEN UnionRest(ts, r.i, Union(lhs, r.v)) ELSE Ok(lhs, i)

TypeList(ts, i, acc) ==
    LET t == Type(ts, i) IN
    IF ~t.ok THEN Ok(acc, i)
    ELSE IF IsSign(ts, t.i, ",") THEN TypeList(ts, t.i + 1, Append(acc, t.v))
    ELSE Ok(Append(acc, t.v), t.i)

Type(ts, i) ==
    IF IsSign(ts, i, "\\(") THEN
        LET as == TypeList(ts, i + 1, <<>>) IN
        IF ~IsSign(ts, as.i, ")") THEN Fail
        ELSE LET r == Type(ts, as.i + 1) IN IF r.ok THEN Ok(<<"fun", Here(i), as.v, r.v>>, r.i) ELSE Fail
    ELSE LET a == AtomicType(ts, i) IN IF a.ok THEN UnionRest(ts, a.i, a.v) ELSE Fail

(* -------------------------------------------------------------------------------- expressions *)
Expr(ts, i) ==
    LET o == Operand(ts, i) IN IF o.ok THEN Operations(ts, o.i, <<o.v>>, <<>>, <<>>) ELSE Fail

(* A number with a sign that follows an operand is an operator and a number. *)
Operations(ts, i, operands, operators, ps) ==
    LET t == At(ts, i) IN
    IF t[1] = "sg" /\ t[2] \in BinaryOperators THEN
        LET o == Operand(ts, i + 1) IN
        IF o.ok THEN Operations(ts, o.i, Append(operands, o.v), Append(operators, t[2]), Append(ps, Here(i))) ELSE Fail
    ELSE Ok(Group(operands, operators, ps), i)

Operand(ts, i) ==
    IF IsSign(ts, i, "!") THEN
        LET o == Operand(ts, i + 1) IN IF o.ok THEN Ok(<<"un", Here(i), "!", o.v>>, o.i) ELSE Fail
    ELSE LET a == Atom(ts, i) IN IF a.ok THEN Suffixes(ts, a.i, a.v) ELSE Fail

Suffixes(ts, i, e) ==
    IF At(ts, i)[1] = "call" THEN
        LET as == ExprList(ts, i + 1, <<>>) IN
        IF IsSign(ts, as.i, ")") THEN Suffixes(ts, as.i + 1, <<"call", Here(i), e, as.v>>) ELSE Fail
    ELSE IF IsSign(ts, i, ".") THEN
        IF IsId(ts, i + 1) THEN Suffixes(ts, i + 2, <<"field", Here(i), e, Text(ts, i + 1)>>) ELSE Fail
    ELSE IF IsSign(ts, i, "...") THEN Fail
    ELSE IF IsSign(ts, i, "?") THEN Suffixes(ts, i + 1, <<"un", Here(i), "?", e>>)
    ELSE Ok(e, i)

ExprList(ts, i, acc) ==
    LET e == Expr(ts, i) IN
    IF ~e.ok THEN Ok(acc, i)
    ELSE IF IsSign(ts, e.i, ",") THEN ExprList(ts, e.i + 1, Append(acc, e.v))
    ELSE Ok(Append(acc, e.v), e.i)

Arguments(ts, i, acc) ==
    IF ~IsId(ts, i) THEN Ok(acc, i)
    ELSE LET t == Type(ts, i + 1) IN
         IF ~t.ok THEN Fail
         ELSE LET next == Append(acc, <<Here(i), Text(ts, i), t.v>>) IN
              IF IsSign(ts, t.i, ",") THEN Arguments(ts, t.i + 1, next) ELSE Ok(next, t.i)

Lambda(ts, i) ==
    IF ~IsSign(ts, i, "\\(") THEN Fail
    ELSE LET as == Arguments(ts, i + 1, <<>>) IN
         IF ~as.ok THEN Fail
         ELSE IF ~IsSign(ts, as.i, ")") THEN Fail
         ELSE LET r == Type(ts, as.i + 1) IN
              IF ~r.ok THEN Fail
              ELSE LET b == Block(ts, r.i) IN
                   IF b.ok THEN Ok(<<"lambda", Here(i), as.v, r.v, b.v>>, b.i) ELSE Fail

Statements(ts, i, acc) ==
    LET named == IsId(ts, i) /\ IsSign(ts, i + 1, "=")
        e == Expr(ts, IF named THEN i + 2 ELSE i)
    IN IF e.ok THEN Statements(ts, e.i, Append(acc, <<Here(i), IF named THEN Text(ts, i) ELSE "", e.v>>)) ELSE Ok(acc, i)

Block(ts, i) ==
    IF ~IsSign(ts, i, "{") THEN Fail
    ELSE LET s == Statements(ts, i + 1, <<>>)
             n == Len(s.v)
         IN IF n = 0 THEN Fail
            ELSE IF s.v[n][2] # "" \/ ~IsSign(ts, s.i, "}") THEN Fail
            ELSE Ok(<<Here(i), SubSeq(s.v, 1, n - 1), s.v[n][3]>>, s.i + 1)

Else(ts, i) == IF IsKey(ts, i, "else") THEN Block(ts, i + 1) ELSE Fail

IfBranches(ts, i, acc) ==
    LET c == Expr(ts, i) IN
    IF ~c.ok THEN Fail
    ELSE LET b == Block(ts, c.i) IN
         IF ~b.ok THEN Fail
         ELSE LET next == Append(acc, <<c.v, b.v>>) IN
              IF IsKey(ts, b.i, "else") /\ IsKey(ts, b.i + 1, "if") THEN IfBranches(ts, b.i + 2, next) ELSE Ok(next, b.i)

TypeBranches(ts, i, acc) ==
    LET t == Type(ts, i) IN
    IF ~t.ok THEN Fail
    ELSE LET b == Block(ts, t.i) IN
         IF ~b.ok THEN Fail
         ELSE LET next == Append(acc, <<t.v, b.v>>) IN
              IF IsKey(ts, b.i, "else") /\ IsKey(ts, b.i + 1, "if") THEN TypeBranches(ts, b.i + 2, next) ELSE Ok(next, b.i)

PlainIf(ts, i) ==
    LET bs == IfBranches(ts, i + 1, <<>>) IN
    IF ~bs.ok THEN Fail
    ELSE LET e == Else(ts, bs.i) IN IF e.ok THEN Ok(<<"if", Here(i), bs.v, e.v>>, e.i) ELSE Fail

(* "if" and "[" always open the distinction of empty and non-empty lists *)
IfList(ts, i) ==
    IF ~(IsId(ts, i + 2) /\ IsSign(ts, i + 3, ",") /\ IsSign(ts, i + 4, "...") /\ IsId(ts, i + 5) /\ IsSign(ts, i + 6, "]")
         /\ IsSign(ts, i + 7, "=")) THEN Fail
    ELSE LET l == Expr(ts, i + 8) IN
         IF ~l.ok THEN Fail
         ELSE LET t == Block(ts, l.i) IN
              IF ~t.ok THEN Fail
              ELSE LET e == Else(ts, t.i) IN
                   IF e.ok THEN Ok(<<"iflist", Here(i), l.v, Text(ts, i + 2), Text(ts, i + 5), t.v, e.v>>, e.i) ELSE Fail

IfNamed(ts, i) ==
    LET a == Expr(ts, i + 3) IN
    IF ~a.ok THEN Fail
    ELSE IF IsKey(ts, a.i, "as") THEN
        LET bs == TypeBranches(ts, a.i + 1, <<>>) IN
        IF ~bs.ok THEN Fail
        ELSE IF ~IsKey(ts, bs.i, "else") THEN Ok(<<"iftype", Here(i), Text(ts, i + 1), a.v, bs.v, None>>, bs.i)
        ELSE LET e == Else(ts, bs.i) IN
             IF e.ok THEN Ok(<<"iftype", Here(i), Text(ts, i + 1), a.v, bs.v, e.v>>, e.i)
             ELSE Ok(<<"iftype", Here(i), Text(ts, i + 1), a.v, bs.v, None>>, bs.i)
    ELSE IF IsSign(ts, a.i, "[") THEN
        LET k == Expr(ts, a.i + 1) IN
        IF ~k.ok THEN Fail
        ELSE IF ~IsSign(ts, k.i, "]") THEN Fail
        ELSE LET t == Block(ts, k.i + 1) IN
             IF ~t.ok THEN Fail
             ELSE LET e == Else(ts, t.i) IN
                  IF e.ok THEN Ok(<<"ifmap", Here(i), Text(ts, i + 1), a.v, k.v, t.v, e.v>>, e.i) ELSE Fail
    ELSE Fail

RecordFields(ts, i, acc) ==
    IF ~(IsId(ts, i) /\ IsSign(ts, i + 1, ":")) THEN Ok(acc, i)
    ELSE LET e == Expr(ts, i + 2) IN
         IF ~e.ok THEN Fail
         ELSE LET next == Append(acc, <<Here(i), Text(ts, i), e.v>>) IN
              IF IsSign(ts, e.i, ",") THEN RecordFields(ts, e.i + 1, next) ELSE Ok(next, e.i)

Distinct(fields) == \A j, k \in 1..Len(fields) : j # k => fields[j][2] # fields[k][2]

RecordBody(ts, i, at, old) ==
    LET fs == RecordFields(ts, at, <<>>) IN
    IF ~fs.ok THEN Fail
    ELSE IF ~IsSign(ts, fs.i, "}") \/ ~Distinct(fs.v) \/ (old # None /\ fs.v = <<>>) THEN Fail
    ELSE Ok(<<"record", Here(i), Text(ts, i), old, fs.v>>, fs.i + 1)

Record(ts, i) ==
    IF IsSign(ts, i + 2, "...") THEN
        LET o == Expr(ts, i + 3) IN
        IF ~o.ok THEN Fail
        ELSE IF ~IsSign(ts, o.i, ",") THEN Fail
        ELSE RecordBody(ts, i, o.i + 1, o.v)
    ELSE RecordBody(ts, i, i + 2, None)

Names(ts, i, acc) ==
    IF ~IsId(ts, i) THEN Ok(acc, i)
    ELSE IF IsSign(ts, i + 1, ",") THEN Names(ts, i + 2, Append(acc, Text(ts, i)))
    ELSE Ok(Append(acc, Text(ts, i)), i + 1)

CompBranches(ts, i, acc) ==
    IF ~IsKey(ts, i, "for") THEN Ok(acc, i)
    ELSE LET ns == Names(ts, i + 1, <<>>) IN
         IF ns.v = <<>> \/ ~IsKey(ts, ns.i, "in") THEN Fail
         ELSE LET is == ExprList(ts, ns.i + 1, <<>>) IN
              IF is.v = <<>> THEN Fail
              ELSE IF IsKey(ts, is.i, "if") THEN
                  LET c == Expr(ts, is.i + 1) IN
                  IF c.ok THEN CompBranches(ts, c.i, Append(acc, <<Here(i), ns.v, is.v, c.v>>)) ELSE Fail
              ELSE CompBranches(ts, is.i, Append(acc, <<Here(i), ns.v, is.v, None>>))

Elements(ts, i, acc) ==
    LET multi == IsSign(ts, i, "...")
        e == Expr(ts, IF multi THEN i + 1 ELSE i)
    IN IF ~e.ok THEN (IF multi THEN Fail ELSE Ok(acc, i))
       ELSE LET next == Append(acc, <<IF multi THEN "multi" ELSE "single", e.v>>) IN
            IF IsSign(ts, e.i, ",") THEN Elements(ts, e.i + 1, next) ELSE Ok(next, e.i)

ListOrComprehension(ts, i) ==
    LET t == Type(ts, i + 1) IN
    IF ~t.ok THEN Fail
    ELSE LET es == Elements(ts, t.i, <<>>) IN
         IF ~es.ok THEN Fail
         ELSE IF IsSign(ts, es.i, "]") THEN Ok(<<"list", Here(i), t.v, es.v>>, es.i + 1)
         ELSE IF IsKey(ts, es.i, "for") /\ Len(es.v) = 1 /\ ~IsSign(ts, es.i - 1, ",") THEN
             LET bs == CompBranches(ts, es.i, <<>>) IN
             IF ~bs.ok THEN Fail
             ELSE IF IsSign(ts, bs.i, "]") /\ es.v[1][1] = "single" THEN Ok(<<"comp", Here(i), t.v, es.v[1][2], bs.v>>, bs.i + 1) ELSE Fail
         ELSE Fail

Entries(ts, i, acc) ==
    IF IsSign(ts, i, "...") THEN
        LET e == Expr(ts, i + 1) IN
        IF ~e.ok THEN Fail
        ELSE LET next == Append(acc, <<"multi", e.v>>) IN
             IF IsSign(ts, e.i, ",") THEN Entries(ts, e.i + 1, next) ELSE Ok(next, e.i)
    ELSE LET k == Expr(ts, i) IN
         IF ~k.ok THEN Ok(acc, i)
         ELSE IF ~IsSign(ts, k.i, ":") THEN Fail
         ELSE LET v == Expr(ts, k.i + 1) IN
              IF ~v.ok THEN Fail
              ELSE LET next == Append(acc, <<"single", Here(i), k.v, v.v>>) IN
                   IF IsSign(ts, v.i, ",") THEN Entries(ts, v.i + 1, next) ELSE Ok(next, v.i)

MapLiteral(ts, i) ==
    LET k == Type(ts, i + 1) IN
    IF ~k.ok THEN Fail
    ELSE IF ~IsSign(ts, k.i, ":") THEN Fail
    ELSE LET v == Type(ts, k.i + 1) IN
         IF ~v.ok THEN Fail
         ELSE LET es == Entries(ts, v.i, <<>>) IN
              IF ~es.ok THEN Fail
              ELSE IF IsSign(ts, es.i, "}") THEN Ok(<<"map", Here(i), k.v, v.v, es.v>>, es.i + 1) ELSE Fail

(* A name and "{" are a record wherever that is possible. *)
Atom(ts, i) ==
    LET t == At(ts, i) IN
    IF t[1] \in {"id", "qual"} THEN
        LET r == IF IsSign(ts, i + 1, "{") THEN Record(ts, i) ELSE Fail IN
        IF r.ok THEN r ELSE Ok(<<"var", Here(i), t[2]>>, i + 1)
    ELSE IF t[1] \in {"num", "snum"} THEN Ok(<<"num", Here(i), t[3]>>, i + 1)
    ELSE IF t[1] = "str" THEN Ok(<<"str", Here(i), t[3]>>, i + 1)
    ELSE IF t[1] = "kw" THEN
        IF t[2] # "if" THEN Fail
        ELSE IF IsSign(ts, i + 1, "[") THEN IfList(ts, i)
        ELSE IF IsId(ts, i + 1) /\ IsSign(ts, i + 2, "=") THEN IfNamed(ts, i)
        ELSE PlainIf(ts, i)
    ELSE IF t[2] = "\\(" THEN Lambda(ts, i)
    ELSE IF t[2] = "[" THEN ListOrComprehension(ts, i)
    ELSE IF t[2] = "{" THEN MapLiteral(ts, i)
    ELSE IF t[2] = "(" THEN
        LET e == Expr(ts, i + 1) IN
        IF e.ok THEN (IF IsSign(ts, e.i, ")") THEN Ok(e.v, e.i + 1) ELSE Fail) ELSE Fail
    ELSE Fail

(* ------------------------------------------------------------------------------------ modules *)
(* Module paths are single tokens; the value of a path token is the sequence of its components,    *)
(* the first of them being "" for the modules of the same package.                                 *)
IsConvention(ts, i) == At(ts, i)[1] = "str" /\ At(ts, i)[3] = "c"

RECURSIVE Imports(_, _, _), ForeignImports(_, _, _), TypeDefinitions(_, _, _), Definitions(_, _, _), FieldDefinitions(_, _, _)
Import(ts, i) ==
    IF ~(IsKey(ts, i, "import") /\ At(ts, i + 1)[1] \in {"path", "qual"}) THEN Fail
    ELSE IF At(ts, i + 1)[1] = "qual" /\ At(ts, i + 1)[3] # "public" THEN Fail
    ELSE LET as == IF IsKey(ts, i + 2, "as") /\ IsId(ts, i + 3) THEN Text(ts, i + 3) ELSE ""
             j == IF as = "" THEN i + 2 ELSE i + 4
             ns == IF IsSign(ts, j, "{") THEN Names(ts, j + 1, <<>>) ELSE Ok(<<>>, j)
             plain == <<"import", Here(i), Text(ts, i + 1), as, <<>>>>
         IN IF ~IsSign(ts, j, "{") THEN Ok(plain, j)
            ELSE IF ns.v = <<>> \/ ~IsSign(ts, ns.i, "}") THEN Fail
            ELSE Ok(<<"import", Here(i), Text(ts, i + 1), as, ns.v>>, ns.i + 1)
Imports(ts, i, acc) == LET r == Import(ts, i) IN IF r.ok THEN Imports(ts, r.i, Append(acc, r.v)) ELSE Ok(acc, i)

ForeignImport(ts, i) ==
    IF ~(IsKey(ts, i, "import") /\ IsKey(ts, i + 1, "foreign")) THEN Fail
    ELSE LET c == IsConvention(ts, i + 2)
             j == IF c THEN i + 3 ELSE i + 2
             t == Type(ts, j + 1)
         IN IF ~IsId(ts, j) THEN Fail
            ELSE IF t.ok THEN Ok(<<"foreign", Here(i), IF c THEN "c" ELSE "", Text(ts, j), t.v>>, t.i) ELSE Fail
ForeignImports(ts, i, acc) == LET r == ForeignImport(ts, i) IN IF r.ok THEN ForeignImports(ts, r.i, Append(acc, r.v)) ELSE Ok(acc, i)

FieldDefinitions(ts, i, acc) ==
    IF ~IsId(ts, i) THEN Ok(acc, i)
    ELSE LET t == Type(ts, i + 1) IN
         IF t.ok THEN FieldDefinitions(ts, t.i, Append(acc, <<Here(i), Text(ts, i), t.v>>)) ELSE Fail
TypeDefinition(ts, i) ==
    IF ~(IsKey(ts, i, "type") /\ IsId(ts, i + 1)) THEN Fail
    ELSE IF IsSign(ts, i + 2, "=") THEN
        LET t == Type(ts, i + 3) IN IF t.ok THEN Ok(<<"alias", Here(i), Text(ts, i + 1), t.v>>, t.i) ELSE Fail
    ELSE IF IsSign(ts, i + 2, "{") THEN
        LET fs == FieldDefinitions(ts, i + 3, <<>>) IN
        IF ~fs.ok THEN Fail
        ELSE IF IsSign(ts, fs.i, "}") THEN Ok(<<"recdef", Here(i), Text(ts, i + 1), fs.v>>, fs.i + 1) ELSE Fail
    ELSE Fail
TypeDefinitions(ts, i, acc) == LET r == TypeDefinition(ts, i) IN IF r.ok THEN TypeDefinitions(ts, r.i, Append(acc, r.v)) ELSE Ok(acc, i)

Definition(ts, i) ==
    LET f == IsKey(ts, i, "foreign")
        c == f /\ IsConvention(ts, i + 1)
        j == IF c THEN i + 2 ELSE IF f THEN i + 1 ELSE i
        l == Lambda(ts, j + 2)
    IN IF ~(IsId(ts, j) /\ IsSign(ts, j + 1, "=")) THEN Fail
       ELSE IF l.ok THEN Ok(<<"def", Here(i), IF c THEN "c" ELSE IF f THEN "native" ELSE "", Text(ts, j), l.v>>, l.i) ELSE Fail
Definitions(ts, i, acc) == LET r == Definition(ts, i) IN IF r.ok THEN Definitions(ts, r.i, Append(acc, r.v)) ELSE Ok(acc, i)

Tree(ts) ==
    LET is == Imports(ts, 1, <<>>)
        fs == ForeignImports(ts, is.i, <<>>)
        tds == TypeDefinitions(ts, fs.i, <<>>)
        ds == Definitions(ts, tds.i, <<>>)
    IN IF ds.i = Len(ts) + 1 THEN <<is.v, fs.v, tds.v, ds.v>> ELSE Reject
=============================================================================
