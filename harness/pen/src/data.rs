//! Values between JSON and the interpreter.
use crate::foreign::{call, elements, list, record_type, variant};
use crate::interp::*;
use mir::types::Type;
use serde_json::{json, Value};
use std::rc::Rc;

/// null, booleans, numbers, strings; {"n": hexadecimal bits}, {"s": bytes}, {"l": [elements]},
/// {"v": value} (a value as `any`), {"w": [type name, value]} (as `any` within a concrete wrapper),
/// {"r": [name, fields...]}, {"e": source}, {"u": index of an earlier result},
/// {"p": [path, name]} (a public or private function).
pub fn get(i: &mut Interp, v: &Value, results: &[V]) -> R<V> {
    Ok(match v {
        Value::Null => V::None,
        Value::Bool(b) => V::Bool(*b),
        Value::Number(n) => V::Num(n.as_f64().unwrap()),
        Value::String(s) => string(s),
        Value::Array(_) => return wrong("case: array"),
        Value::Object(o) => {
            let (k, x) = o.iter().next().unwrap();
            match k.as_str() {
                "n" => V::Num(f64::from_bits(u64::from_str_radix(x.as_str().unwrap(), 16).unwrap())),
                "s" => V::Str(x.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()),
                "l" => {
                    let mut vs = vec![];
                    for y in x.as_array().unwrap() {
                        let y = get(i, y, results)?;
                        vs.push(any(y)?);
                    }
                    list(i, vs)?
                }
                "v" => {
                    let y = get(i, x, results)?;
                    any(y)?
                }
                "w" => {
                    let y = get(i, &x[1], results)?;
                    let n = x[0].as_str().unwrap();
                    variant(record_type(n), V::Rec(Rc::new(Record { name: n.into(), fields: vec![y] })))
                }
                "r" => {
                    let x = x.as_array().unwrap();
                    let mut fields = vec![];
                    for y in &x[1..] {
                        fields.push(get(i, y, results)?);
                    }
                    V::Rec(Rc::new(Record { name: x[0].as_str().unwrap().into(), fields }))
                }
                "e" => {
                    let y = get(i, x, results)?;
                    let y = any(y)?;
                    V::Rec(Rc::new(Record { name: "hir:error".into(), fields: vec![y] }))
                }
                "u" => results[x.as_u64().unwrap() as usize].clone(),
                "p" => entry(i, x[0].as_str().unwrap(), x[1].as_str().unwrap())?,
                _ => return wrong("case: value"),
            }
        }
    })
}

pub fn entry(i: &Interp, path: &str, name: &str) -> R<V> {
    let prefix = if path.starts_with("prelude/") { "prelude:".to_string() } else { format!("{path}:") };
    match i.entries.get(&(path.into(), format!("{prefix}{name}"))) {
        Some(&g) => i.global(g),
        None => wrong(format!("no function {name} in {path}")),
    }
}

pub fn any(v: V) -> R<V> {
    Ok(match &v {
        V::None => variant(Type::None, v),
        V::Bool(_) => variant(Type::Boolean, v),
        V::Num(_) => variant(Type::Number, v),
        V::Str(_) => variant(Type::ByteString, v),
        V::Rec(r) => variant(record_type(&r.name), v.clone()),
        V::Var(_) => v,
        _ => return wrong("case: any"),
    })
}

pub fn put(i: &mut Interp, v: &V) -> R<Value> {
    Ok(match v {
        V::None => Value::Null,
        V::Bool(b) => json!(b),
        V::Num(n) if n.fract() == 0.0 && n.abs() < 9e15 && !(*n == 0.0 && n.is_sign_negative()) => json!(*n as i64),
        V::Num(n) => json!({"n": format!("{:x}", n.to_bits())}),
        V::Str(s) if s.iter().all(|b| (32..127).contains(b)) => json!(String::from_utf8(s.to_vec()).unwrap()),
        V::Str(s) => json!({"s": s.to_vec()}),
        V::Fun(_) => json!({"fun": true}),
        V::Opaque(_) => json!({"opaque": true}),
        V::Var(x) => put(i, &x.1)?,
        V::Rec(r) => match &*r.name {
            "prelude:List" => {
                let mut out = vec![];
                for x in elements(i, v.clone())? {
                    out.push(put(i, &x)?);
                }
                json!({ "l": out })
            }
            "prelude:Map" => {
                let mut out = vec![];
                let mut m = call(i, "prelude:IterateMap", vec![v.clone()])?;
                loop {
                    let V::Var(x) = &m else { return wrong("iterator: variant expected") };
                    let V::Rec(x) = &x.1 else { break };
                    out.push(json!([put(i, &x.fields[0])?, put(i, &x.fields[1])?]));
                    m = i.call(&x.fields[2], vec![])?;
                    if out.len() > 1_000_000 {
                        return wrong("map too large");
                    }
                }
                let n = call(i, "prelude:MapSize", vec![v.clone()])?;
                json!({"m": out, "size": put(i, &n)?})
            }
            "hir:error" => json!({"e": put(i, &r.fields[0])?}),
            n if n.starts_with("hir:list:") || n.starts_with("hir:map:") || n.starts_with("hir:function:") => put(i, &r.fields[0])?,
            n => {
                let mut out = vec![json!(n)];
                for x in &r.fields {
                    out.push(put(i, x)?);
                }
                json!({ "r": out })
            }
        },
    })
}
