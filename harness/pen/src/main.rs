//! Runs Pen modules through the real compiler front end and an interpreter of its output.
mod compiler;
mod data;
mod foreign;
mod interp;
#[path = "../../penrt/penrt.rs"]
mod penrt;

use compiler::Compiler;
use interp::{Interp, Trap, V};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};

fn interpreter(c: &Compiler) -> Interp {
    let mut i = Interp::new();
    foreign::register(&mut i);
    // Of equal definitions of type information, the first wins; those of the prelude know less.
    let mut units: Vec<_> = c.units.iter().collect();
    units.sort_by_key(|(p, _)| (p.starts_with("prelude/"), p.as_str()));
    for (path, u) in units {
        i.load(path, &u.module);
    }
    i
}

fn trap(t: Trap) -> Value {
    match t {
        Trap::Wrong(s) => json!({ "wrong": s }),
        Trap::Budget => json!({"budget": true}),
        Trap::Return(_) => json!({"wrong": "return"}),
    }
}

fn failure(f: compiler::Failure) -> Value {
    json!({"stage": f.stage, "message": f.message})
}

fn tests(path: &str) -> Value {
    let mut c = match Compiler::new() { Ok(c) => c, Err(e) => return failure(e) };
    let u = match c.compile(path, true) { Ok(u) => u, Err(e) => return failure(e) };
    let mut i = interpreter(&c);
    let mut out = serde_json::Map::new();
    for t in u.tests.as_ref().unwrap().functions() {
        i.budget = 100_000_000;
        let r = i.foreign(t.foreign_name()).and_then(|f| i.call(&f, vec![]));
        out.insert(t.name().into(), match r {
            Ok(V::Str(s)) => json!(String::from_utf8_lossy(&s)),
            Ok(_) => json!({"wrong": "no string"}),
            Err(t) => trap(*t),
        });
    }
    Value::Object(out)
}

fn clean(i: &mut Interp, budget: u64) {
    i.budget = budget;
    i.depth = 0;
    i.debug.clear();
}

/// {"texts": {path: text}, "root": path, "calls": [{"fn": name | "foreign": name, "args": [..]}]}
fn case(c: &mut Compiler, cache: &mut HashMap<String, Interp>, case: &Value) -> Value {
    c.reset();
    if let Some(texts) = case["texts"].as_object() {
        for (p, t) in texts {
            c.texts.insert(p.clone(), t.as_str().unwrap().into());
        }
    }
    let mut units = vec![];
    for root in case["roots"].as_array().unwrap() {
        let root = root.as_str().unwrap();
        match c.compile(root, false) {
            Ok(u) => units.push(u),
            Err(e) => return failure(e),
        }
    }
    if case["calls"].is_null() {
        return json!({"ok": true});
    }
    let key = case["roots"].to_string();
    let permanent = units.iter().all(|u| u.permanent);
    let mut own;
    let i = if permanent {
        cache.entry(key).or_insert_with(|| interpreter(c))
    } else {
        own = interpreter(c);
        &mut own
    };
    let budget = case["budget"].as_u64().unwrap_or(20_000_000);
    let mut results: Vec<V> = vec![];
    let mut out = vec![];
    let first = units.first().map(|u| u.path.clone()).unwrap_or_default();
    for call in case["calls"].as_array().unwrap() {
        clean(i, budget);
        let mut go = || -> interp::R<V> {
            let f = if let Some(n) = call["foreign"].as_str() {
                i.foreign(n)?
            } else if !call["value"].is_null() {
                return data::get(i, &call["value"], &results);
            } else if !call["of"].is_null() {
                data::get(i, &call["of"], &results)?
            } else {
                data::entry(i, call["in"].as_str().unwrap_or(&first), call["fn"].as_str().unwrap())?
            };
            let mut arguments = vec![];
            for a in call["args"].as_array().unwrap() {
                arguments.push(data::get(i, a, &results)?);
            }
            i.call(&f, arguments)
        };
        match go() {
            Ok(v) => {
                let shown = if call["quiet"].as_bool() == Some(true) { Ok(Value::Null) } else { data::put(i, &v) };
                out.push(match shown {
                    Ok(x) if i.debug.is_empty() => json!({ "v": x }),
                    Ok(x) => json!({"v": x, "debug": i.debug.iter().map(|d| String::from_utf8_lossy(d).to_string()).collect::<Vec<_>>()}),
                    Err(t) => trap(*t),
                });
                results.push(v);
            }
            Err(t) => {
                out.push(trap(*t));
                results.push(V::None);
            }
        }
    }
    json!({ "results": out })
}

fn run() {
    let mut stdout = std::io::stdout().lock();
    let mut c = Compiler::new();
    let mut cache = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let x: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let r = if let Some(p) = x["tests"].as_str() {
            tests(p)
        } else {
            match &mut c {
                Ok(c) => case(c, &mut cache, &x),
                Err(e) => json!({"stage": e.stage, "message": e.message}),
            }
        };
        writeln!(stdout, "{r}").unwrap();
        stdout.flush().unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(8 << 30).spawn(run).unwrap().join().unwrap();
}
