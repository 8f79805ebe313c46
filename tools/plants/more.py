import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from lang import HELP
PLANTS = {
"c12-right-operands": dict(property="C12", deps="lang",
 edits=[("lib/format/src/lib.rs", "priority <= operator_priority(operation.operator())", "priority < operator_priority(operation.operator())\n                    || operation.operator() == BinaryOperator::Subtract\n                        && priority == operator_priority(operation.operator())")],
 needs="a grouped right operand of the same priority as its operator, other than subtraction",
 breaks="a / (b * c) becomes a / b * c.",
 main=HELP + r'''
fn main() {
    for s in ["a / (b * c)", "a / (b / c)", "a + (b - c)"] {
        let t = format(&format!("f = \\() t {{ {s} }}"));
        assert!(t.contains(s), "{t}");
    }
}
'''),
"c11-comment-offset": dict(property="C11", deps="lang",
 edits=[("lib/parse/src/parser.rs", 'none_of("\\"#")', 'none_of("\\"#\\r")')],
 needs="-", breaks="-", main=HELP + "fn main() {}"),
}
del PLANTS["c11-comment-offset"]
