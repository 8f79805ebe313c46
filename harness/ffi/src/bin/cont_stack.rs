//! Replays behaviours of ContStack.tla on the continuation stack.
use harness_ffi::*;
use pen_ffi::cps::{AsyncStack, Stack};

fn f(v: i64, i: i64) -> u64 { (v as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(i as u64 * 0x0101_0101_0101) }
fn w<const N: usize>(v: i64) -> [u64; N] { std::array::from_fn(|i| f(v, i as i64)) }
fn push(s: &mut Stack, t: &str, v: i64) {
    match t {
        "unit" => s.push(()), "u8" => s.push(f(v, 0) as u8), "f64" => s.push(f64::from_bits(f(v, 0) >> 2)),
        "b12" => s.push::<[u8; 12]>(std::array::from_fn(|i| f(v, i as i64) as u8)),
        "w3" => s.push(w::<3>(v)), "w9" => s.push(w::<9>(v)), _ => unreachable!(),
    }
}
fn pop(s: &mut Stack, t: &str, v: i64) -> bool {
    match t {
        "unit" => { s.pop::<()>(); true } "u8" => s.pop::<u8>() == f(v, 0) as u8, "f64" => s.pop::<f64>().to_bits() == f(v, 0) >> 2,
        "b12" => s.pop::<[u8; 12]>() == std::array::from_fn::<u8, 12, _>(|i| f(v, i as i64) as u8),
        "w3" => s.pop::<[u64; 3]>() == w::<3>(v), "w9" => s.pop::<[u64; 9]>() == w::<9>(v), _ => unreachable!(),
    }
}
fn replay(s: &mut Stack, case: &Value) -> Value {
    let mut shadow: Vec<(String, i64)> = vec![];
    for (i, step) in case["hist"].as_array().unwrap().iter().enumerate() {
        let (t, v) = (step["t"].as_str().unwrap(), step["v"].as_i64().unwrap());
        let r = guarded(|| if step["op"] == "push" { push(s, t, v); true } else { pop(s, t, v) });
        if r != Ok(true) { return json!({ "step": i + 1, "result": format!("{r:?}") }) }
        if step["op"] == "push" { untracked(|| shadow.push((t.into(), v))) } else { untracked(|| shadow.pop()); }
    }
    while let Some((t, v)) = untracked(|| shadow.pop()) {
        let r = guarded(|| pop(s, &t, v));
        if r != Ok(true) { return json!({ "step": "end", "type": t, "value": v, "result": format!("{r:?}") }) }
    }
    Value::Null
}
fn main() {
    quiet_panics();
    serve(|case| {
        let capacity = case["cap"].as_u64().unwrap() as usize;
        let problem = tracked(|| {
            if case["async"] == true { let mut s = AsyncStack::<u64>::new(capacity); let p = replay(&mut s, case); drop(s); p }
            else { let mut s = Stack::new(capacity); let p = replay(&mut s, case); drop(s); p }
        });
        let (leaked, twice) = leaks();
        let overrun = overruns();
        reset();
        json!({ "problem": if !problem.is_null() { problem } else if leaked + twice + overrun > 0 { json!({ "leaked": leaked, "freed_twice": twice, "written_out_of_bounds": overrun }) } else { Value::Null } })
    });
}
