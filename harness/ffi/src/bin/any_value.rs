//! Replays behaviours of AnyValue.tla on the dynamic `any` type with payload types of several layouts.
use harness_ffi::*;
use pen_ffi::Any;
use std::cell::Cell;

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn add(n: i64) { LIVE.with(|l| l.set(l.get() + n)) }

trait Item: Clone + Into<Any> + TryFrom<Any> + 'static {
    fn make(v: i64) -> Self;
    fn value(&self) -> i64;
    fn set(&mut self, v: i64);
    fn peek(any: &Any) -> Option<i64>;
    fn poke(any: &mut Any, v: i64) -> bool;
    /// instances counted?
    const COUNTED: bool;
}
macro_rules! access { ($counted:expr) => {
    fn peek(any: &Any) -> Option<i64> { <&Self>::try_from(any).ok().map(|x| x.value()) }
    fn poke(any: &mut Any, v: i64) -> bool { match <&mut Self>::try_from(any) { Ok(x) => { x.set(v); true } Err(()) => false } }
    const COUNTED: bool = $counted;
} }
macro_rules! boxed { ($name:ident) => {
    #[pen_ffi::any(crate = "pen_ffi")]
    pub struct $name { value: Box<i64> }
    impl Clone for $name { fn clone(&self) -> Self { add(1); $name { value: self.value.clone() } } }
    impl Drop for $name { fn drop(&mut self) { add(-1) } }
    impl Item for $name { fn make(v: i64) -> Self { add(1); $name { value: Box::new(v) } } fn value(&self) -> i64 { *self.value } fn set(&mut self, v: i64) { *self.value = v } access!(true); }
} }
boxed!(BoxA); boxed!(BoxB);
#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Num { value: f64 }
impl Item for Num { fn make(v: i64) -> Self { Num { value: v as f64 } } fn value(&self) -> i64 { self.value as i64 } fn set(&mut self, v: i64) { self.value = v as f64 } access!(false); }
#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Num2 { value: f64 }
impl Item for Num2 { fn make(v: i64) -> Self { Num2 { value: v as f64 } } fn value(&self) -> i64 { self.value as i64 } fn set(&mut self, v: i64) { self.value = v as f64 } access!(false); }
#[pen_ffi::any(crate = "pen_ffi")]
pub struct Small { value: u8 }
impl Clone for Small { fn clone(&self) -> Self { add(1); Small { value: self.value } } }
impl Drop for Small { fn drop(&mut self) { add(-1) } }
impl Item for Small { fn make(v: i64) -> Self { add(1); Small { value: v as u8 } } fn value(&self) -> i64 { self.value as i64 } fn set(&mut self, v: i64) { self.value = v as u8 } access!(true); }
#[pen_ffi::any(crate = "pen_ffi")]
#[derive(Clone)]
pub struct Pair { high: u32, low: u32 }
impl Item for Pair { fn make(v: i64) -> Self { Pair { high: v as u32, low: !(v as u32) } } fn value(&self) -> i64 { if self.low == !self.high { self.high as i64 } else { -9 } } fn set(&mut self, v: i64) { self.high = v as u32; self.low = !(v as u32) } access!(false); }
#[pen_ffi::any(crate = "pen_ffi")]
pub struct Text { value: pen_ffi::ByteString, }
impl Clone for Text { fn clone(&self) -> Self { add(1); Text { value: self.value.clone() } } }
impl Drop for Text { fn drop(&mut self) { add(-1) } }
impl Item for Text { fn make(v: i64) -> Self { add(1); Text { value: v.to_string().into() } } fn value(&self) -> i64 { std::str::from_utf8(self.value.as_slice()).ok().and_then(|s| s.parse().ok()).unwrap_or(-9) } fn set(&mut self, v: i64) { self.value = v.to_string().into() } access!(true); }

#[derive(Clone, Copy)]
struct Ops { wrap: fn(i64) -> Any, take: fn(Any) -> Option<i64>, peek: fn(&Any) -> Option<i64>, poke: fn(&mut Any, i64) -> bool, counted: bool }
fn ops<T: Item>() -> Ops {
    Ops { wrap: |v| T::make(v).into(), take: |a| T::try_from(a).ok().map(|x| x.value()), peek: T::peek, poke: T::poke, counted: T::COUNTED }
}
fn table(name: &str) -> Ops {
    match name { "boxa" => ops::<BoxA>(), "boxb" => ops::<BoxB>(), "num" => ops::<Num>(), "num2" => ops::<Num2>(), "small" => ops::<Small>(), "pair" => ops::<Pair>(), "text" => ops::<Text>(), _ => unreachable!() }
}

fn main() {
    quiet_panics();
    serve(|case| {
        LIVE.with(|l| l.set(0));
        let of = |t: &str| table(case["types"][t].as_str().unwrap());
        let mut slots: Vec<Option<(String, Any)>> = (0..8).map(|_| None).collect();
        let mut problem = Value::Null;
        for (i, step) in case["hist"].as_array().unwrap().iter().enumerate() {
            let slot = step["args"][0].as_u64().unwrap() as usize;
            let r = guarded(|| tracked(|| match step["op"].as_str().unwrap() {
                "wrap" => { let t = step["args"][1].as_str().unwrap(); let a = (of(t).wrap)(step["args"][2].as_i64().unwrap()); untracked(|| slots[slot] = Some((t.into(), a))); (true, 0) }
                "clone" => { let (t, a) = slots[slot].as_ref().unwrap(); let t = untracked(|| t.clone()); let c = a.clone(); slots[step["args"][1].as_u64().unwrap() as usize] = Some((t, c)); (true, 0) }
                "drop" => { slots[slot] = None; (true, 0) }
                "take" => { let (_, a) = slots[slot].take().unwrap(); match (of(step["args"][1].as_str().unwrap()).take)(a) { Some(v) => (true, v), None => (false, 0) } }
                "peek" => match (of(step["args"][1].as_str().unwrap()).peek)(&slots[slot].as_ref().unwrap().1) { Some(v) => (true, v), None => (false, 0) },
                "poke" => ((of(step["args"][1].as_str().unwrap()).poke)(&mut slots[slot].as_mut().unwrap().1, step["args"][2].as_i64().unwrap()), 0),
                _ => unreachable!(),
            }));
            let got = match r { Err(e) => json!({ "panic": e }), Ok((ok, v)) => {
                let seen: Vec<Value> = (1..=step["seen"].as_array().unwrap().len()).map(|s| match &slots[s] { None => json!({"ty": "none", "v": 0}), Some((t, a)) => json!({"ty": t, "v": (of(t).peek)(a).unwrap_or(-1)}) }).collect();
                json!({ "ok": ok, "v": v, "seen": seen }) } };
            // live instances of counted payload types
            let expected_live: i64 = step["seen"].as_array().unwrap().iter().filter(|s| s["ty"] != "none" && of(s["ty"].as_str().unwrap()).counted).count() as i64;
            let live = LIVE.with(|l| l.get());
            if got["ok"] != step["ok"] || got["v"] != step["v"] || got["seen"] != step["seen"] || live != expected_live {
                problem = json!({ "step": i + 1, "got": got, "live": live, "expected_live": expected_live, "expected": step });
                break;
            }
        }
        if problem.is_null() {
            let r = guarded(|| { for s in slots.iter_mut() { drop(s.take()) } });
            let (leaked, twice) = leaks();
            let live = LIVE.with(|l| l.get());
            if r.is_err() || leaked + twice > 0 || live != 0 { problem = json!({ "step": "end", "leaked": leaked, "freed_twice": twice, "live": live, "panic": r.err() }) }
        } else { for s in slots.iter_mut() { std::mem::forget(s.take()) } }
        drop(slots);
        reset();
        json!({ "problem": problem })
    });
}
