HELP = r'''#![allow(dead_code)]
fn module(s: &str) -> ast::Module { parse::parse(s, "f").unwrap_or_else(|e| panic!("{e}\n{s}")) }
fn format(s: &str) -> String { format::format(&module(s), &parse::parse_comments(s, "f").unwrap()) }
fn value(s: &str) -> ast::Expression {
    module(&format!("f = \\() t {{ {s} }}")).function_definitions()[0].lambda().body().expression().clone()
}
'''
PLANTS = {
"c09-operator-levels": dict(property="C09", deps="lang",
 edits=[("lib/parse/src/operations.rs", "operator_priority(pair.0) <= operator_priority(*operator)", "operator_priority(pair.0) < operator_priority(*next_operator)")],
 needs="operators of three priorities in the order low, high, middle",
 breaks="`a | b == c & d` is read as `(a | b == c) & d`.",
 main=HELP + r"""
fn main() {
    let ast::Expression::BinaryOperation(o) = value("a | b == c & d") else { panic!() };
    assert_eq!(o.operator(), ast::BinaryOperator::Or, "{o:?}");
}
"""),
"c10-duplicate-fields": dict(property="C10", deps="lang",
 edits=[("lib/parse/src/parser.rs", """                        fields.len()
                            == HashSet::<&str>::from_iter(fields.iter().map(|field| field.name()))
                                .len()""", """                        fields
                            .windows(2)
                            .all(|fields| fields[0].name() != fields[1].name())"""),
        ("lib/parse/src/parser.rs", "use std::{collections::HashSet, str};", "use std::str;")],
 needs="a record with two fields of the same name which are not next to each other",
 breaks="A record which defines a field twice is accepted.",
 main=HELP + r'''
fn main() {
    for s in ["f = \\() t { r{a: 1, b: 2, a: 3} }", "f = \\() t { r{...x, a: 1, b: 2, a: 3} }"] {
        assert!(parse::parse(s, "f").is_err(), "{s}");
    }
    value("r{a: 1, b: 2, c: 3}");
}
'''),
"c11-escaped-quote": dict(property="C11", deps="lang",
 edits=[("lib/parse/src/parser.rs", "map(raw_string_literal, |_| None),", "map((char('\"'), many0_count(none_of(\"\\\"\")), char('\"')), |_| None),")],
 needs="a string literal with an escaped quote followed by a number sign",
 breaks="What looks like a comment inside of a string literal is reported as a comment (or comments are lost).",
 main=HELP + r'''
fn main() {
    let s = "f = \\() string {\n  g(\"\\\"#x\") # one\n}\n";
    module(s);
    let cs = parse::parse_comments(s, "f").unwrap();
    assert_eq!(cs.iter().map(|c| c.line().trim().to_string()).collect::<Vec<_>>(), ["one"]);
}
'''),
"c12-union-function": dict(property="C12", deps="lang",
 edits=[("lib/format/src/lib.rs", """                    .iter()
                    .map(|type_| {
                        let document = compile_type(context, type_);

                        if matches!(type_, Type::Function(_)) {""", """                    .iter()
                    .enumerate()
                    .map(|(index, type_)| {
                        let document = compile_type(context, type_);

                        if index + 1 < types.len() && matches!(type_, Type::Function(_)) {""")],
 needs="a union type whose last member is a function type",
 breaks="The formatter drops parentheses which a function type at the end of a union needs; the output cannot be parsed.",
 main=HELP + r'''
fn main() {
    let s = "type t = a | (\\() b)\n";
    let t = format(s);
    module(&t);
    let u = "type t = (\\() b) | a\n";
    module(&format(u));
}
'''),
"c13-repeated-comment": dict(property="C13", deps="lang",
 edits=[("lib/format/src/lib.rs", """    let builder = context.builder();

    builder.sequence(
        comments
            .iter()
            .zip(""", """    let builder = context.builder();
    let comments = comments
        .iter()
        .copied()
        .dedup_by(|one, other| one.line() == other.line())
        .collect::<Vec<_>>();

    builder.sequence(
        comments
            .iter()
            .zip(""")],
 needs="a block comment two successive lines of which have the same text",
 breaks="The formatter deletes one of two equal successive comment lines.",
 main=HELP + r'''
fn main() {
    let t = format("# a\n#\n#\n# b\nf = \\() t {\n  x\n}\n");
    assert_eq!(parse::parse_comments(&t, "f").unwrap().len(), 4, "{t}");
}
'''),
"c14-operator-line": dict(property="C14", deps="lang",
 edits=[("lib/format/src/lib.rs", "operation.lhs().position().line_number() == operation.rhs().position().line_number(),", "operation.position().line_number() == operation.rhs().position().line_number(),")],
 needs="a binary operation broken right after the operator",
 breaks="Formatting breaks the line before the operator first, and joins it when it formats its own output.",
 main=HELP + r'''
fn main() {
    let once = format("f = \\() t {\n  x +\n    y\n}\n");
    assert_eq!(format(&once), once);
}
'''),
"c15-mixed-record": dict(property="C15", deps="lang",
 edits=[("lib/ast/src/analysis.rs", """    definition
        .fields()
        .iter()
        .all(|field| is_name_public(field.name()))""", """    definition.fields().is_empty()
        || definition
            .fields()
            .iter()
            .any(|field| is_name_public(field.name()))""")],
 needs="a record type with a public and a private field",
 breaks="Documentation shows the private fields of a record type.",
 main=HELP + r'''
fn main() {
    let s = "type Foo {\n  Bar number\n  secret number\n}\n";
    let p = doc::Package { name: "p".into(), url: "u".into(), description: "d".into(), type_: "library".into() };
    let path: ast::ModulePath = ast::ExternalModulePath::new("P", vec!["M".into()]).into();
    let t = doc::generate(&p, &[(path, (module(s), vec![]))].into_iter().collect(),
        &doc::Configuration { language: "pen".into(), private_names: Default::default() });
    assert!(!t.contains("secret"), "{t}");
}
'''),
"c15-foreign-first": dict(property="C15", deps="lang",
 edits=[("lib/doc/src/lib.rs", """        .chain(
            module
                .foreign_imports()
                .iter()
                .map(|import| import.position()),
        )
""", "")],
 needs="a module whose first line is a comment right above a foreign import, which is the first declaration",
 breaks="The comment of a foreign import is presented as the documentation of the module.",
 main=HELP + r'''
fn main() {
    let s = "# of the import\nimport foreign foo \\() none\n\nBar = \\() none {\n  foo()\n}\n";
    let p = doc::Package { name: "p".into(), url: "u".into(), description: "d".into(), type_: "library".into() };
    let path: ast::ModulePath = ast::ExternalModulePath::new("P", vec!["M".into()]).into();
    let t = doc::generate(&p, &[(path, (module(s), parse::parse_comments(s, "f").unwrap()))].into_iter().collect(),
        &doc::Configuration { language: "pen".into(), private_names: Default::default() });
    assert!(!t.contains("of the import"), "{t}");
}
'''),
}
