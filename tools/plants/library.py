import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from pen import pen, case, gives, core
REFUSED = """import Json'Decode

Main = \\(s string) boolean {
  if _ = Decode'Decode(s) as error { true } else { false }
}
"""
ENCODED = """import Json'Encode
import Json'Value

Main = \\(s string) string {
  Encode'Encode(Value'New({string: Value'Value "a": Value'New(none), s: Value'New(true), "b": Value'New(1)}))
}
"""
HTML = """import Html'Node { Attribute, Element, Node }
import Html'Render

Main = \\(k string, v string) string | none {
  if s = Render'Render(Element{Tag: "a", Attributes: [Attribute Attribute{Key: k, Value: v}], Children: [Node]}) as string {
    s
  } else {
    none
  }
}
"""
REGEX = """import Regex'Expression

Main = \\(p string, s string) boolean | [string | none] | none | error {
  e = Expression'New(p)?

  if Expression'Matches(e, s) { Expression'Match(e, s) } else { false }
}
"""
LITERAL = "Main = \\() number {\n  %s\n}\n"
PLANTS = {
"c23-leading-zeros": pen("C23", [("packages/json/Decode.pen", """    if v = raw(v, "0") as View {
      v
    } else {
      error("number expected")""", """    if v = raw(v, "0") as View {
      digits(v)
    } else {
      error("number expected")""")],
 "a number with digits after a leading zero", "Ill-formed numbers such as 01 are accepted.",
 (case(REFUSED, "[-012]"), gives(True)), (case(REFUSED, "[-0]"), gives(False))),
"c23-blank-before-colon": pen("C23", [("packages/json/Decode.pen", 'v = token(r.input, ":")?', 'v = raw(r.input, ":")?')],
 "a blank between a name and its colon", "Well-formed objects are refused.",
 (case(REFUSED, '{"a" : 1}'), gives(False))),
"c23-trailing-comma": pen("C23", [("packages/json/Decode.pen", "      if r.entries == [objectEntry] {\n", "      if r.entries == [objectEntry] & size(Value'Raw(e.value)) == 0 {\n".replace("size(Value'Raw(e.value)) == 0", "e.key == \"\""))],
 "an object with a comma after its last entry", "Ill-formed objects are accepted.",
 (case(REFUSED, '{"a": 1, }'), gives(True))),
"c28-attribute-quote": pen("C28", [("packages/html/ffi/src/lib.rs", "    html_escape::encode_quoted_attribute(", "    html_escape::encode_text(")],
 "an attribute value with a quotation mark", "Values of attributes end early and become markup.",
 (case(HTML, "b", 'c" d="'), gives('<a b="c&quot; d=&quot;"/>'))),
"c28-name-after-dash": pen("C28", [("packages/html/validate.pen", """  View'Length(v) == 0
    | Boolean'Any(""", """  View'Length(v) == 0
    | View'StartsWith(v, "-") & View'Length(v) > 1
    | Boolean'Any(""")],
 "a name with a wrong character behind a dash", "Names that contain markup are accepted.",
 (case(HTML, "b-><", "c"), gives(None)), (case(HTML, "b-", "c"), gives('<a b-="c"/>'))),
"c29-wide-hexadecimal": pen("C29", [("lib/ast-hir/src/number.rs", """            usize::from_str_radix(string, 16).map_err(|error| CompileError::ParseInteger {
                error,
                position: number.position().clone(),
            })? as f64
""", """            usize::from_str_radix(string, 16).map_err(|error| CompileError::ParseInteger {
                error,
                position: number.position().clone(),
            })? as i64 as f64
""")],
 "a hexadecimal literal of sixteen digits whose first bit is set", "Such literals denote negative numbers.",
 (case(LITERAL % "0x8000000000000000"), gives({"n": "43e0000000000000"}))),
"c29-small-numbers": pen("C29", [("lib/ast-hir/src/number.rs", """            string.parse().map_err(|error| CompileError::ParseFloat {
                error,
                position: number.position().clone(),
            })?
""", """            {
                let position = || number.position().clone();
                let parse = |string: &str| {
                    string.parse::<f64>().map_err(|error| CompileError::ParseFloat {
                        error,
                        position: position(),
                    })
                };

                if let Some((significand, exponent)) = string.split_once('e') {
                    parse(significand)? * 10f64.powf(parse(exponent)?)
                } else {
                    parse(string)?
                }
            }
""")],
 "a literal with an exponent whose power of ten is not exact", "Literals with exponents are off by a rounding error.",
 (case("Main = \\() boolean {\n  3.3e-7 == 0.00000033 & 9.7e11 == 970000000000 & 1.1e-5 == 0.000011\n}\n"), gives(True))),
"c32-unmatched-group": pen("C32", [("packages/regex/ffi/src/lib.rs", """                    if let Some(capture) = capture {
                        ffi::ByteString::from(capture.as_str()).into()
                    } else {
                        ffi::None::new().into()
                    }
""", """                    ffi::ByteString::from(capture.map_or("", |capture| capture.as_str())).into()
""")],
 "a group that takes no part in the match", "Groups that were not matched look as if they had matched nothing.",
 (case(REGEX, "a(b)?c", "ac"), gives({"l": ["ac", None]}))),
"c32-whole-lines": pen("C32", [("packages/regex/ffi/src/lib.rs", "        ExpressionInner(Arc::new(Regex::new(str::from_utf8(string.as_slice())?)?)).into(),\n", "        ExpressionInner(Arc::new(\n            regex::RegexBuilder::new(str::from_utf8(string.as_slice())?.trim_end_matches('\\\\'))\n                .build()?,\n        ))\n        .into(),\n")],
 "a pattern that ends in a backslash", "Ill-formed patterns are accepted.",
 (case("import Regex'Expression\n\nMain = \\(p string) boolean {\n  if _ = Expression'New(p) as error { true } else { false }\n}\n", "ab\\"), gives(True))),
"c22-run-result": pen("C22", [("packages/test/State.pen", """  x = f(s)
  _pen_test_state_freeze(s)
  x
""", """  if _ = f(s) as error { f(s) } else { none }
""")],
 "a function that writes a state and then fails", "The function is run twice on the same state.",
 (case("""
import Test'State { State }

Main = \\() none | error {
  State'Run(\\(s State) none | error {
    if _ = State'Get(s) as none {
      State'Set(s, 1)
      error("first")
    } else {
      none
    }
  })
}
"""), dict(results=[dict(v={"e": "first"})]))),
"c22-same-value": pen("C22", [("packages/test/State.pen", """  _pen_test_state_set(s, x)
""", """  if _ = x as none {
    none
  } else {
    _pen_test_state_set(s, x)
  }
""")],
 "none being written over another value", "Writes of none are lost.",
 (case("""
import Test'State { State }

Main = \\() none | error {
  State'Run(\\(s State) none | error {
    State'Set(s, 1)
    State'Set(s, none)

    if _ = State'Get(s) as none {
      none
    } else {
      error("kept")
    }
  })
}
"""), gives(None))),
"c33-incomparable-field": pen("C33", [("lib/hir-mir/src/type_information/equal.rs", """                )],
                default_alternative.clone(),
            ),
        )],
        default_alternative,
    )
    .into()
""", """                )],
                Some(mir::ir::DefaultAlternative::new(
                    "",
                    mir::ir::Variant::new(
                        mir::types::Type::Boolean,
                        mir::ir::Variable::new(LHS_NAME),
                    ),
                )),
            ),
        )],
        default_alternative,
    )
    .into()
""")],
 "records with a function in a field", "Values that cannot be compared are equal.",
 (case("""
import Reflect'Any

type pair {
  x number
  f any
}

Main = \\(n number) boolean | none {
  Any'Equal(pair{x: n, f: \\() number { n }}, pair{x: n, f: \\() number { n }})
}
""", 1), gives(None))),
"c33-map-types": pen("C33", [("lib/hir-mir/src/type_information/debug.rs", """                    mir::ir::ByteString::new(type_formatter::format(map_type.value())).into(),
""", """                    mir::ir::ByteString::new(type_formatter::format(map_type.key())).into(),
""")],
 "a map whose keys and values have different types", "Maps are shown with a wrong type.",
 (case("""
import Reflect'Any

Main = \\(n number) string {
  Any'Debug({string: number "a": n})
}
""", 1), gives('{string: number "a": 1}'))),
"c33-first-list": pen("C33", [("packages/prelude/List.pen", """        if b {
          equalNodes(f, x.rest(), y.rest())
        } else {
          false
        }
      } else if none {
        none
      }
    } else {
      false
    }
  } else {
    if y = y as node {
      false
    } else {
      true
    }
  }
}

HashList""", """        if b {
          equalNodes(f, x.rest(), y.rest())
        } else {
          false
        }
      } else if none {
        none
      }
    } else {
      false
    }
  } else {
    true
  }
}

HashList""")],
 "a list compared with one that continues it", "A list equals every list that it begins.",
 (case("""
import Reflect'Any

Main = \\(n number) boolean | none {
  Any'Equal([number 1], [number 1, n])
}
""", 1), gives(False))),
"c34-first-flag": pen("C34", [("packages/flag/Flag.pen", """          {string: string
            ...ns,
            Byte'Slice(
              s(),
              Byte'Length(prefix()) + 1,
              Number'Infinity(),
            ): v(),
          },
""", """          {string: string
            Byte'Slice(
              s(),
              Byte'Length(prefix()) + 1,
              Number'Infinity(),
            ): v(),
            ...ns,
            ...ns,
          },
""")],
 "a flag given twice", "", (case("", 1), gives(1))),
"c34-separator-value": pen("C34", [("packages/flag/Flag.pen", """      if [v, ...ss] = ss {
        parse(
""", """      if [v, ...ss] = if [v, ..._] = ss { if v() == separator() { [string] } else { ss } } else { ss } {
        parse(
""")],
 "-- as the value of a flag", "A flag with such a value is an error.",
 (case("""
import Flag'Flag

Main = \\(s string) number | error {
  size(Flag'Parse([string "-a", s])?.Named)
}
""", "--"), gives(1))),
"c34-last-of-two": pen("C34", [("packages/core/List.pen", """last = \\(xs [any], x \\() any) any {
  if [x, ...xs] = xs {
    last(xs, x)
  } else {
    x()
  }
}
""", """last = \\(xs [any], x \\() any) any {
  if [y, ...ys] = xs {
    if [_, ..._] = ys { last(ys, y) } else if _ = y() as none { x() } else { y() }
  } else {
    x()
  }
}
""")],
 "a list of several elements that ends with none", "The last element but one is given.",
 (case("""
import Core'List

Main = \\(n number) any {
  List'Last([any n, none], 5)
}
""", 1), gives(None))),
}
del PLANTS["c34-first-flag"]
