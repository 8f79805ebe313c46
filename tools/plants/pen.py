def case(text, *args, fn="Main"): return dict(texts={"main/M.pen": text}, roots=["main/M.pen"], calls=[dict(fn=fn, args=list(args))], budget=3000000)
def gives(v, debug=None): return dict(results=[dict(v=v) if debug is None else dict(debug=debug, v=v)])
def pen(property, edits, needs, breaks, *cases): return dict(property=property, deps="pen", edits=edits, needs=needs, breaks=breaks, cases=list(cases))
SIZES = """
at = \\(m {number: number}, n number) number {
  if v = m[n] {
    v
  } else {
    0 - 1
  }
}

fill = \\(n number) {number: number} {
  if n == 0 {
    {number: number}
  } else {
    {number: number ...fill(n - 1), n: n * 10}
  }
}

all = \\(m {number: number}, n number) number {
  if n == 0 {
    0
  } else {
    (if at(m, n) == n * 10 { 0 } else { 1 }) + all(m, n - 1)
  }
}

Main = \\() number {
  all(fill(100), 100)
}
"""
PLANTS = {
"c26-split-level": pen("C26",
 [("packages/prelude/Map.pen", "      u = setKeyValue(ctx, u.hamt, key, value, layer, l)\n", "      u = setKeyValue(ctx, u.hamt, key, value, layer, if level > 2 { level } else { l })\n")],
 "two keys whose hashes share the indexes of three levels of the trie, and a third which does not",
 "A key inserted next to one with the same first fifteen bits is put at the wrong place and not found again.",
 (case("""
get = \\(m {number: number}, n number) number {
  if v = m[n] {
    v
  } else {
    0 - 1
  }
}

Main = \\(a number, b number) number {
  m = {number: number a: 1, b: 2}
  get(m, a) * 10 + get(m, b)
}
""", 218, 127), gives(12))),
"c26-delete-missing": pen("C26",
 [("packages/prelude/Map.pen", "      hamtUpdate{hamt: hamt, resized: false}\n    }\n  } else if hamt {\n    u = if level > maxLevel() {\n      deleteKey", "      hamtUpdate{hamt: hamt, resized: level > 1}\n    }\n  } else if hamt {\n    u = if level > maxLevel() {\n      deleteKey")],
 "deleting a key which is not in the map, but whose place below the root is taken by another key",
 "The size of the map shrinks although nothing was deleted.",
 (case(SIZES.replace("all(fill(100), 100)", "m = fill(100)\n  clean(m, 1000) + all(m, 100)") + """
clean = \\(m {number: number}, n number) number {
  if n == 100 {
    size(m)
  } else {
    clean(delete(m, n), n - 1)
  }
}
"""), gives(100))),
"c26-merge-size": pen("C26",
 [("packages/prelude/Map.pen", "        mergeHamt(ctx, m, e, 1)\n      } else if none", "        mergeHamt(ctx, m, e, 2)\n      } else if none")],
 "merging a map with a nested node which has an entry in its first slot",
 "Entries of a spread map are lost.",
 (case(SIZES.replace("all(fill(100), 100)", "all({number: number ...fill(100), ...fill(0), 1: 10, ...fill(90)}, 100) + all({number: number 1: 10, ...fill(200)}, 200)")), gives(0))),
"c27-concatenated-end": pen("C27",
 [("packages/prelude/List.pen", "      prependToNode(x.first, concatenateNodes(x.rest, y.node))\n", "      if r = x.rest() as node {\n        prependToNode(x.first, concatenateNodes(\\() node | none { r }, y.node))\n      } else {\n        prependToNode(x.first, y.node)\n      }\n")],
 "a spread list whose tail has effects or does not end, of which only the first element is read",
 "Reading the first element of a list with a spread evaluates the second one's node.",
 (case("""
down = \\(n number) [number] {
  if n == 0 {
    [number]
  } else {
    debug(n)
    [number n, ...down(n - 1)]
  }
}

Main = \\(n number) number {
  if [x, ...xs] = [number ...down(n), 7] {
    x()
  } else {
    0
  }
}
""", 3), gives(3, ["3"]))),
"c27-zip-shorter": pen("C27",
 [("lib/hir-mir/src/list_comprehension.rs", "                .map(|name| Variable::new(name, position.clone()).into())\n                .collect(),\n            position.clone(),\n        );", "                .rev()\n                .map(|name| Variable::new(name, position.clone()).into())\n                .rev()\n                .map(|name: Expression| name)\n                .collect(),\n            position.clone(),\n        );"),
  ("lib/hir-mir/src/list_comprehension.rs", "                list,\n                rest,\n", "                list,\n                if branch.names().len() > 1 { List::new(element_type.clone(), vec![], position.clone()).into() } else { Expression::from(rest) },\n")],
 "a comprehension over several lists with a condition which fails before the end",
 "A comprehension over several lists ends at the first elements that its condition refuses.",
 (case("""
Main = \\() [number] {
  [number x() + y() for x, y in [number 1, 2, 3], [number 10, 20, 30] if x() != 2]
}
"""), gives({"l": [11, 33]}))),
"c27-equal-length": pen("C27",
 [("packages/prelude/List.pen", "    if y = y as node {\n      false\n    } else {\n      true\n    }\n", "    if y = y as node {\n      if _ = y.rest() as none {\n        false\n      } else {\n        if b = f(y.first(), y.first()) as none { none } else { true }\n      }\n    } else {\n      true\n    }\n")],
 "comparing a list with one that is longer by at least two elements",
 "A list equals every list which continues it by two elements or more.",
 (case("""
Main = \\(n number) boolean {
  [number n] == [number n, n, n]
}
""", 1), gives(False))),
"c31-or-evaluates": pen("C31",
 [("lib/hir-mir/src/transformation/boolean_operation.rs", "Boolean::new(true, position.clone())", "operation.lhs().clone()")],
 "a left operand of | with effects which is true",
 "The left operand of | is evaluated twice when it is true.",
 (case("""
f = \\(n number) boolean {
  debug(n)
  n > 1
}

Main = \\(n number) boolean {
  f(n) | f(n + 1)
}
""", 2), gives(True, ["2"]))),
"c31-update-order": pen("C31",
 [("lib/hir-mir/src/expression.rs", """                        .iter()
                        .position(|field_type| field_type.name() == field.name())
                        .unwrap(),
                        compile(field.expression())?,""", """                        .iter()
                        .position(|field_type| field_type.name() >= field.name())
                        .unwrap(),
                        compile(field.expression())?,""")],
 "a record type whose fields are not in alphabetical order, with fields of one type, and an update of a field after one with a later name",
 "A record update changes another field.",
 (case("""
type v {
  z number
  a number
}

Main = \\(n number) number {
  v = v{...v{z: 1, a: n}, a: 3}

  v.z * 10 + v.a
}
""", 2), gives(13))),
"c31-alternative-drop": pen("C31",
 [("lib/mir/src/analysis/lambda_lifting/box_.rs", "                || let_.definition().name() != name && is_uniform(let_.expression())", "                || let_.definition().name() != name && is_uniform(let_.definition().body())")],
 "a closure with free variables which is only called before another closure is made and passed on after that",
 "Closures that are stored are called without their environment.",
 (case("""
apply = \\(f \\(number) number, g \\(number) number, n number) number {
  f(g(n))
}

Main = \\(n number) number {
  f = \\(x number) number { x + n }
  g = \\(x number) number { x * n }

  apply(f, g, n)
}
""", 5), gives(30))),
}
def core(module, fn, *args): return dict(roots=["core/" + module], calls=[dict(fn=fn, args=list(args), **{"in": "core/" + module})], budget=3000000)
PLANTS.update({
"c16-ends-first": pen("C16",
 [("packages/core/ffi/src/string/utf8.rs", "            string.ends_with(pattern)\n", "            string\n                .find(pattern)\n                .map_or(false, |index| index + pattern.len() == string.len())\n")],
 "a pattern that occurs in a string before its end, too", "EndsWith is false for a string that ends with the pattern.",
 (core("String/Utf8.pen", "EndsWith", "ab ab", "ab"), gives(True))),
"c16-split-end": pen("C16",
 [("packages/core/ffi/src/string/utf8.rs", "                .split(pattern)\n", "                .split_terminator(pattern)\n")],
 "a string that ends with the pattern by which it is split", "The empty string after the last separator is lost.",
 (core("String/Utf8.pen", "Split", "a,b,", ","), gives({"l": ["a", "b", ""]}))),
"c17-remainder-sign": pen("C17",
 [("packages/core/ffi/src/number.rs", "    f64::from(x).rem_euclid(y.into()).into()\n", "    let y = f64::from(y);\n    let remainder = f64::from(x) % y;\n\n    if remainder < 0.0 {\n        remainder + y\n    } else {\n        remainder\n    }\n    .into()\n")],
 "a negative number with a negative divisor", "Remainders are negative.",
 (core("Number.pen", "Remainder", -7, -5), gives(3))),
"c17-round-half": pen("C17",
 [("packages/core/ffi/src/number.rs", "    f64::from(number).round().into()\n", "    (f64::from(number) + 0.5).floor().into()\n")],
 "a negative number half way between two integers", "Negative halves are rounded towards zero.",
 (core("Number.pen", "Round", -2.5), gives(-3))),
"c17-precision": pen("C17",
 [("packages/core/ffi/src/number.rs", '    format!("{}", f64::from(number)).into()\n', '    let number = f64::from(number);\n\n    if number.abs() >= 1e16 {\n        format!("{}", number as i128)\n    } else {\n        format!("{}", number)\n    }\n    .into()\n')],
 "a number beyond the range of 128-bit integers", "Large numbers and infinities have a wrong text.",
 (core("Number.pen", "String", 1e40), gives("1" + "0" * 40))),
"c18-zero": pen("C18",
 [("packages/prelude/ffi/src/lib.rs", "        &(if number == 0.0 {\n", "        &(if number.to_bits() == 0 {\n")],
 "a negative zero as a key or in one", "Equal keys hash apart, so that they are not found.",
 (case("""
at = \\(m {number: number}, n number) number {
  if v = m[n] { v } else { 0 }
}

Main = \\(n number) number {
  at({number: number 0: 5}, n * (0 - 1))
}
""", 0), gives(5))),
"c18-long-strings": pen("C18",
 [("packages/prelude/ffi/src/lib.rs", "    (one.as_slice() == other.as_slice()).into()\n", "    let one = one.as_slice();\n    let other = other.as_slice();\n\n    (one.len() == other.len()\n        && one\n            .chunks_exact(16)\n            .zip(other.chunks_exact(16))\n            .all(|(one, other)| one == other)\n        && one[one.len() & !15..].starts_with(&other[other.len() - other.len() % 8..]))\n    .into()\n")],
 "strings of one length that differ in the first eight bytes behind a multiple of sixteen only", "Different strings are equal.",
 (case("Main = \\(s string, t string) boolean {\n  s == t\n}\n", "abcdefgh", "abcdefgx"), gives(False))),
"c18-many-fields": pen("C18",
 [("lib/hir-mir/src/transformation/record_equal_function.rs", "            type_definition.fields().iter().rev().fold(\n", "            type_definition.fields().iter().take(8).rev().fold(\n")],
 "records of more than eight fields that differ in a later one only", "Different records are equal.",
 (case("type t {\n" + "".join("  f%d number\n" % i for i in range(1, 10)) + "}\n\nMain = \\(n number) boolean {\n  x = t{" + ", ".join("f%d: n" % i for i in range(1, 10)) + "}\n\n  x == t{...x, f9: n + 1}\n}\n", 1), gives(False))),
})
