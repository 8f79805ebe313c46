//! Parses, formats and documents texts: one JSON request per line, one JSON answer per line.
mod dump;
use serde_json::{json, Value};
use std::{collections::{BTreeMap, HashSet}, io::{BufRead, Write}, panic::{catch_unwind, AssertUnwindSafe}};

fn error(e: parse::ParseError) -> Value {
    // "<message>\n<path>\n<line>:<column>:\t<text>\n..."
    let s = e.to_string();
    let numbers = s.lines().nth(2).map(|l| l.split(':').take(2).filter_map(|x| x.parse::<i64>().ok()).collect::<Vec<_>>());
    json!({ "error": numbers, "message": s })
}
fn comments(text: &str, path: &str) -> Value {
    dump::source(text, path);
    match parse::parse_comments(text, path) {
        Ok(cs) => Value::Array(cs.iter().map(|c| json!([dump::pos(c.position()), c.line()])).collect()),
        Err(e) => error(e),
    }
}
fn tree(text: &str, path: &str) -> Value {
    dump::source(text, path);
    match parse::parse(text, path) { Ok(m) => dump::module(&m), Err(e) => error(e) }
}
fn formatted(text: &str, path: &str) -> Result<String, Value> {
    let m = parse::parse(text, path).map_err(error)?;
    let cs = parse::parse_comments(text, path).map_err(error)?;
    Ok(format::format(&m, &cs))
}
/// A module as a user of the library gets it: the path is parsed by means of an import.
fn path_of(s: &str) -> ast::ModulePath {
    let parts = s.split('\'').collect::<Vec<_>>();
    let components = parts[1..].iter().map(|c| c.to_string()).collect();
    if parts[0].is_empty() { ast::InternalModulePath::new(components).into() } else { ast::ExternalModulePath::new(parts[0], components).into() }
}
fn answer(case: &Value) -> Value {
    let text = case["text"].as_str().unwrap_or_default();
    match case["op"].as_str().unwrap() {
        "parse" => json!({ "tree": tree(text, "file.pen"), "comments": comments(text, "file.pen") }),
        "comments" => json!({ "comments": comments(text, "file.pen") }),
        "format" => match formatted(text, "file.pen") {
            Ok(once) => json!({ "text": once, "tree": tree(&once, "f"), "comments": comments(&once, "f"), "again": formatted(&once, "f").unwrap_or_else(|e| e.to_string()) }),
            Err(e) => json!({ "refused": e }),
        },
        "doc" => {
            let modules = case["modules"].as_array().unwrap().iter().map(|m| {
                let t = m[1].as_str().unwrap();
                (path_of(m[0].as_str().unwrap()), (parse::parse(t, "f").expect("module"), parse::parse_comments(t, "f").expect("comments")))
            }).collect::<BTreeMap<_, _>>();
            let p = |k: &str| case["package"][k].as_str().unwrap_or_default().to_string();
            json!({ "doc": doc::generate(
                &doc::Package { name: p("name"), url: p("url"), description: p("description"), type_: p("type") }, &modules,
                &doc::Configuration { language: p("language"), private_names: case["private"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<HashSet<_>>() }) })
        }
        _ => unreachable!(),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let out = std::io::stdout();
        for line in std::io::stdin().lock().lines() {
            let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
            let r = catch_unwind(AssertUnwindSafe(|| answer(&case))).unwrap_or_else(|e| {
                json!({ "panic": e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())) })
            });
            let mut out = out.lock();
            writeln!(out, "{r}").unwrap();
            out.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
