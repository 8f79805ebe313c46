//! Abstract syntax trees as nested arrays, as in PenSyntax.tla; positions are [line, column].
use ast::{types::Type, *};
use position::Position;
use serde_json::{json, Value};

thread_local! { static SOURCE: std::cell::RefCell<(Vec<String>, String)> = Default::default(); }
/// Sets the text that positions are expected to quote.
pub fn source(text: &str, path: &str) { SOURCE.with(|s| *s.borrow_mut() = (text.split('\n').map(Into::into).collect(), path.into())) }
pub fn pos(p: &Position) -> Value {
    SOURCE.with(|s| {
        let s = s.borrow();
        if s.0.get(p.line_number().wrapping_sub(1)).map(|l| l.as_str()) == Some(p.line()) && s.1 == p.path() { json!([p.line_number(), p.column_number()]) }
        else { json!([p.line_number(), p.column_number(), "quotes", p.line(), p.path()]) }
    })
}
fn all<T>(xs: &[T], f: impl Fn(&T) -> Value) -> Value { Value::Array(xs.iter().map(f).collect()) }
fn convention(c: CallingConvention, native: &str) -> String { match c { CallingConvention::C => "c".into(), CallingConvention::Native => native.into() } }

pub fn module(m: &Module) -> Value {
    json!([all(m.imports(), import), all(m.foreign_imports(), |i| json!(["foreign", pos(i.position()), convention(i.calling_convention(), ""), i.name(), type_(i.type_())])),
        all(m.type_definitions(), |d| match d {
            TypeDefinition::RecordDefinition(r) => json!(["recdef", pos(r.position()), r.name(), all(r.fields(), |f| json!([pos(f.position()), f.name(), type_(f.type_())]))]),
            TypeDefinition::TypeAlias(a) => json!(["alias", pos(a.position()), a.name(), type_(a.type_())]),
        }),
        all(m.function_definitions(), |d| json!(["def", pos(d.position()), d.foreign_export().map(|e| convention(e.calling_convention(), "native")).unwrap_or_default(), d.name(), lambda(d.lambda())]))])
}
fn import(i: &Import) -> Value {
    let path = match i.module_path() {
        ModulePath::External(p) => format!("{}'{}", p.package(), p.components().join("'")),
        ModulePath::Internal(p) => format!("'{}", p.components().join("'")),
    };
    json!(["import", pos(i.position()), path, i.prefix().unwrap_or_default(), all(i.unqualified_names(), |n| n.name().into())])
}
pub fn type_(t: &Type) -> Value {
    match t {
        Type::Function(f) => json!(["fun", pos(f.position()), all(f.arguments(), type_), type_(f.result())]),
        Type::List(l) => json!(["tlist", pos(l.position()), type_(l.element())]),
        Type::Map(m) => json!(["tmap", pos(m.position()), type_(m.key()), type_(m.value())]),
        Type::Record(r) => json!(["trecord", pos(r.position()), r.name()]),
        Type::Reference(r) => json!(["ref", pos(r.position()), r.name()]),
        Type::Union(u) => json!(["union", pos(u.position()), type_(u.lhs()), type_(u.rhs())]),
    }
}
fn lambda(l: &Lambda) -> Value {
    json!(["lambda", pos(l.position()), all(l.arguments(), |a| json!([pos(a.position()), a.name(), type_(a.type_())])), type_(l.result_type()), block(l.body())])
}
fn block(b: &Block) -> Value {
    json!([pos(b.position()), all(b.statements(), |s| json!([pos(s.position()), s.name().unwrap_or_default(), expr(s.expression())])), expr(b.expression())])
}
pub fn expr(e: &Expression) -> Value {
    let tree = match e {
        Expression::BinaryOperation(o) => json!(["bin", pos(o.position()), match o.operator() {
            BinaryOperator::Add => "+", BinaryOperator::Subtract => "-", BinaryOperator::Multiply => "*", BinaryOperator::Divide => "/",
            BinaryOperator::And => "&", BinaryOperator::Or => "|", BinaryOperator::Equal => "==", BinaryOperator::NotEqual => "!=",
            BinaryOperator::LessThan => "<", BinaryOperator::LessThanOrEqual => "<=", BinaryOperator::GreaterThan => ">", BinaryOperator::GreaterThanOrEqual => ">=",
        }, expr(o.lhs()), expr(o.rhs())]),
        Expression::Call(c) => json!(["call", pos(c.position()), expr(c.function()), all(c.arguments(), expr)]),
        Expression::If(i) => json!(["if", pos(i.position()), all(i.branches(), |b| json!([expr(b.condition()), block(b.block())])), block(i.else_())]),
        Expression::IfList(i) => json!(["iflist", pos(i.position()), expr(i.list()), i.first_name(), i.rest_name(), block(i.then()), block(i.else_())]),
        Expression::IfMap(i) => json!(["ifmap", pos(i.position()), i.name(), expr(i.map()), expr(i.key()), block(i.then()), block(i.else_())]),
        Expression::IfType(i) => json!(["iftype", pos(i.position()), i.name(), expr(i.argument()), all(i.branches(), |b| json!([type_(b.type_()), block(b.block())])), i.else_().map(block).unwrap_or(json!([]))]),
        Expression::Lambda(l) => lambda(l),
        Expression::List(l) => json!(["list", pos(l.position()), type_(l.type_()), all(l.elements(), |e| match e {
            ListElement::Multiple(e) => json!(["multi", expr(e)]), ListElement::Single(e) => json!(["single", expr(e)]) })]),
        Expression::ListComprehension(c) => json!(["comp", pos(c.position()), type_(c.type_()), expr(c.element()),
            all(c.branches(), |b| json!([pos(b.position()), b.names(), all(b.iteratees(), expr), b.condition().map(expr).unwrap_or(json!([]))]))]),
        Expression::Map(m) => json!(["map", pos(m.position()), type_(m.key_type()), type_(m.value_type()), all(m.elements(), |e| match e {
            MapElement::Multiple(e) => json!(["multi", expr(e)]), MapElement::Single(e) => json!(["single", pos(e.position()), expr(e.key()), expr(e.value())]) })]),
        Expression::Number(n) => json!(["num", pos(n.position()), match n.value() {
            NumberRepresentation::Binary(s) => format!("0b{s}"), NumberRepresentation::Hexadecimal(s) => format!("0x{s}"), NumberRepresentation::FloatingPoint(s) => s.clone() }]),
        Expression::Record(r) => json!(["record", pos(r.position()), r.type_name(), r.record().map(expr).unwrap_or(json!([])), all(r.fields(), |f| json!([pos(f.position()), f.name(), expr(f.expression())]))]),
        Expression::RecordDeconstruction(d) => json!(["field", pos(d.position()), expr(d.expression()), d.name()]),
        Expression::String(s) => json!(["str", pos(s.position()), s.value()]),
        Expression::UnaryOperation(o) => json!(["un", pos(o.position()), match o.operator() { UnaryOperator::Not => "!", UnaryOperator::Try => "?" }, expr(o.expression())]),
        Expression::Variable(v) => json!(["var", pos(v.position()), v.name()]),
    };
    assert_eq!(pos(e.position()), tree[1], "position of an expression differs from that of its variant");
    tree
}
