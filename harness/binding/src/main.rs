//! Calls the generated exported functions of Binding.tla and performs the conversions of Conversion.tla.
#![allow(unused)]
use ffi::{Any, Boolean, ByteString, Closure, Error, List, Number};
use harness_ffi::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Wake, Waker};
#[path = "../../penrt/penrt.rs"]
mod penrt;

thread_local! {
    static SEEN: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static SUSPENSIONS: Cell<u64> = const { Cell::new(0) };
}

// ---- descriptions
pub fn number(x: f64) -> String { if x.is_nan() { "nan".into() } else if x == 0.0 && x.is_sign_negative() { "-0".into() } else if x.abs() >= 1e21 { format!("{x:e}") } else { format!("{x}") } }
pub fn any(a: &Any) -> String {
    let a = a.clone();
    if penrt::number::is(&a) { return number(penrt::number::take(a).unwrap().into()) }
    if penrt::boolean::is(&a) { return if penrt::boolean::take(a).unwrap().into() { "t".into() } else { "f".into() } }
    if penrt::none::is(&a) { return "none".into() }
    if penrt::string::is(&a) { return text(&penrt::string::take(a).unwrap()) }
    if penrt::error::is(&a) { return error(&penrt::error::take(a).unwrap()) }
    if penrt::list::is(&a) { return list(&penrt::list::take(a).unwrap()) }
    "?".into()
}
pub fn text(s: &ByteString) -> String { format!("'{}'", String::from_utf8_lossy(s.as_slice())) }
pub fn error(e: &Error) -> String { format!("error({})", any(&penrt::error_source(e))) }
pub fn list(l: &List) -> String { format!("[{}]", penrt::to_vec(l).iter().map(any).collect::<Vec<_>>().join(",")) }
pub trait Describe { fn describe(&self) -> String; }
impl Describe for Number { fn describe(&self) -> String { number((*self).into()) } }
impl Describe for f64 { fn describe(&self) -> String { number(*self) } }
impl Describe for Boolean { fn describe(&self) -> String { if (*self).into() { "t".into() } else { "f".into() } } }
impl Describe for ffi::None { fn describe(&self) -> String { "none".into() } }
impl Describe for ByteString { fn describe(&self) -> String { text(self) } }
impl Describe for List { fn describe(&self) -> String { list(self) } }
impl Describe for Any { fn describe(&self) -> String { any(self) } }
impl Describe for Error { fn describe(&self) -> String { error(self) } }

// ---- making values from descriptions: number, 'text', t, f, none, error(..), [..]
fn split(s: &str) -> Vec<String> {
    let (mut out, mut depth, mut quoted, mut cur) = (vec![], 0, false, String::new());
    for c in s.chars() {
        match c { '\'' => quoted = !quoted, '(' | '[' if !quoted => depth += 1, ')' | ']' if !quoted => depth -= 1, _ => {} }
        if c == ',' && depth == 0 && !quoted { out.push(std::mem::take(&mut cur)) } else { cur.push(c) }
    }
    if !cur.is_empty() { out.push(cur) }
    out
}
pub fn make_any(s: &str) -> Any {
    if let Some(x) = s.strip_prefix("error(") { return penrt::error::any(make_error(s)) }
    if s.starts_with('[') { return penrt::list::any(make_list(s)) }
    if s.starts_with('\'') { return penrt::string::any(make_text(s)) }
    match s { "t" => penrt::boolean::any(true.into()), "f" => penrt::boolean::any(false.into()), "none" => penrt::none::any(ffi::None::default()), _ => penrt::number::any(make_number(s).into()) }
}
pub fn make_text(s: &str) -> ByteString { ByteString::from(&s[1..s.len() - 1]) }
pub fn make_error(s: &str) -> Error { Error::new(make_any(&s[6..s.len() - 1])) }
pub fn make_list(s: &str) -> List { let mut l = penrt::make_list(penrt::Node::Empty); for x in split(&s[1..s.len() - 1]).iter().rev() { l = penrt::cons(penrt::thunk(make_any(x)), l) } l }
pub fn make_number(s: &str) -> f64 { match s { "nan" => f64::NAN, _ => s.parse().unwrap() } }

// ---- used by the generated functions
pub fn record(d: &str) { untracked(|| SEEN.with(|s| s.borrow_mut().push(d.to_string()))) }
pub struct Suspend(pub u64);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 { return Poll::Ready(()) }
        self.0 -= 1;
        SUSPENSIONS.with(|s| s.set(s.get() + 1));
        c.waker().wake_by_ref();
        Poll::Pending
    }
}
#[derive(Debug)]
pub struct Failure(pub String);
impl std::fmt::Display for Failure { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Failure {}
pub type Call = fn(&[String]) -> Pin<Box<dyn Future<Output = String>>>;

mod generated { include!(env!("PEN_GEN")); }

struct Nop(std::sync::atomic::AtomicBool);
impl Wake for Nop { fn wake(self: std::sync::Arc<Self>) { self.0.store(true, std::sync::atomic::Ordering::SeqCst) } }
/// Polls only when woken.
fn execute(mut f: Pin<Box<dyn Future<Output = String>>>) -> Result<String, String> {
    let flag = untracked(|| std::sync::Arc::new(Nop(true.into())));
    let waker = untracked(|| Waker::from(flag.clone()));
    for _ in 0..100 {
        if !flag.0.swap(false, std::sync::atomic::Ordering::SeqCst) { std::mem::forget(f); return Err("not woken".into()) }
        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&waker)) { return Ok(v) }
    }
    std::mem::forget(f);
    Err("does not complete".into())
}

fn call(case: &Value) -> Value {
    let f: Call = generated::CALLS[case["index"].as_u64().unwrap() as usize];
    let args: Vec<String> = case["args"].as_array().unwrap().iter().map(|a| a[1].as_str().unwrap().to_string()).collect();
    SEEN.with(|s| s.borrow_mut().clear());
    SUSPENSIONS.with(|s| s.set(0));
    let r = guarded(|| tracked(|| execute(f(&args)).map(|s| { let t = untracked(|| s.clone()); drop(s); t })));
    let (leaked, twice) = leaks();
    let out = json!({ "result": match &r { Ok(Ok(s)) => json!(s), Ok(Err(e)) => json!({"stuck": e}), Err(e) => json!({"panic": e}) },
        "seen": SEEN.with(|s| s.borrow().clone()), "suspensions": SUSPENSIONS.with(|s| s.get()), "leaked": leaked, "twice": twice, "overrun": overruns() });
    std::mem::forget(r);
    reset();
    out
}

#[derive(Clone)]
enum Rep { Empty, Number(Number), Boolean(Boolean), None(ffi::None), Text(ByteString), List(List), Error(Error), Any(Any), Refused }
fn describe(r: &Rep) -> (String, String) { match r {
    Rep::Empty => ("empty".into(), "".into()), Rep::Refused => ("refused".into(), "".into()),
    Rep::Number(x) => ("number".into(), x.describe()), Rep::Boolean(x) => ("boolean".into(), x.describe()), Rep::None(x) => ("none".into(), x.describe()),
    Rep::Text(x) => ("string".into(), x.describe()), Rep::List(x) => ("list".into(), x.describe()), Rep::Error(x) => ("error".into(), x.describe()),
    Rep::Any(x) => { let t = if penrt::number::is(x) { "number" } else if penrt::boolean::is(x) { "boolean" } else if penrt::none::is(x) { "none" } else if penrt::string::is(x) { "string" } else if penrt::error::is(x) { "error" } else if penrt::list::is(x) { "list" } else { "?" };
        (format!("any:{t}"), x.describe()) }
} }
extern "C" fn give_list(stack: &mut ffi::cps::AsyncStack, continue_: ffi::cps::ContinuationFunction<List>, closure: Closure<List>) { let l = unsafe { (*closure.payload()).clone() }; drop(closure); continue_(stack, l) }
fn convert(step: &Value, expected: &str, rep: Rep, extra: &mut Vec<Value>) -> Rep {
    match (step["op"].as_str().unwrap(), rep) {
        ("make", _) => { let via = step["via"].as_str().unwrap(); match step["t"].as_str().unwrap() {
            "number" => { let f = make_number(expected); Rep::Number(if via == "new" { Number::new(f) } else { f.into() }) }
            "boolean" => Rep::Boolean(if via == "new" { Boolean::new(expected == "t") } else { (expected == "t").into() }),
            "none" => Rep::None(ffi::None::default()),
            _ => { let s = &expected[1..expected.len() - 1]; Rep::Text(match via { "str" => s.into(), "string" => s.to_string().into(), "vec" => s.as_bytes().to_vec().into(), "slice" => s.as_bytes().into(), _ => s.chars().next().unwrap().into() }) }
        } }
        ("any", Rep::Number(x)) => Rep::Any(x.into()), ("any", Rep::Boolean(x)) => Rep::Any(x.into()), ("any", Rep::None(x)) => Rep::Any(x.into()),
        ("any", Rep::Text(x)) => Rep::Any(x.into()), ("any", Rep::List(x)) => Rep::Any(x.into()), ("any", Rep::Error(x)) => Rep::Any(x.into()),
        ("as", Rep::Any(a)) => match step["t"].as_str().unwrap() {
            "number" => Number::try_from(a).map_or(Rep::Refused, Rep::Number), "boolean" => Boolean::try_from(a).map_or(Rep::Refused, Rep::Boolean),
            "string" => ByteString::try_from(a).map_or(Rep::Refused, Rep::Text), "list" => List::try_from(a).map_or(Rep::Refused, Rep::List),
            "error" => Error::try_from(a).map_or(Rep::Refused, Rep::Error), _ => unreachable!() },
        ("is", Rep::Any(a)) => {
            let yes = step["yes"].as_str().unwrap();
            for (t, b) in [("number", a.is_number()), ("boolean", a.is_boolean()), ("none", a.is_none()), ("string", a.is_string()), ("list", a.is_list()), ("error", a.is_error())] {
                if b != (t == yes) { untracked(|| extra.push(json!({"predicate": t, "answer": b}))) }
            }
            Rep::Any(a)
        }
        ("copy", r) => { let c = r.clone(); drop(r); c }
        ("native", Rep::Number(n)) => Rep::Number(f64::from(n).into()),
        ("native", Rep::Boolean(n)) => Rep::Boolean(bool::from(n).into()),
        ("native", Rep::Text(n)) => { let c = ByteString::from(n.as_slice()); if c != n || n != n.clone() || (n.as_slice().len() > 0 && ByteString::from(&n.as_slice()[1..]) == n) { untracked(|| extra.push(json!("string equality"))) }
            use std::hash::{Hash, Hasher}; let h = |x: &ByteString| { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() };
            if h(&c) != h(&n) { untracked(|| extra.push(json!("string hash"))) } Rep::Text(c) }
        ("list", r) => { let n = step["n"].as_u64().unwrap(); macro_rules! l { ($x:expr) => { match n { 0 => List::new(), 1 => List::from([$x]), _ => List::from(vec![$x.clone(), $x]) } } }
            Rep::List(match r { Rep::Any(x) => l!(x), Rep::Number(x) => l!(x), Rep::Text(x) => l!(x), Rep::Boolean(x) => l!(x), _ => unreachable!() }) }
        ("prepend", Rep::List(l)) => Rep::List(l.prepend(Number::new(5.0))),
        ("lazy", Rep::List(l)) => Rep::List(List::lazy(Closure::new(give_list as *const u8, l).into_opaque())),
        ("error", Rep::Any(a)) => Rep::Error(Error::new(a)),
        ("stderror", Rep::Text(s)) => { let f = Failure(String::from_utf8_lossy(s.as_slice()).into()); Rep::Error(Error::from(f)) }
        ("ok", Rep::Any(a)) => Rep::Any(unsafe { std::mem::transmute::<ffi::extra::Result, Any>(Result::<Any, Any>::Ok(a).into()) }),
        ("err", Rep::Any(a)) => Rep::Any(unsafe { std::mem::transmute::<ffi::extra::Result, Any>(Result::<Any, Any>::Err(a).into()) }),
        (o, r) => panic!("harness: {o} on {:?}", describe(&r)),
    }
}
fn conversion(case: &Value) -> Value {
    let mut rep = Rep::Empty;
    let mut problem = Value::Null;
    for (i, step) in case["hist"].as_array().unwrap().iter().enumerate() {
        let mut extra = vec![];
        let expected = step["d"].as_str().unwrap();
        let r = guarded(|| tracked(|| convert(step, expected, std::mem::replace(&mut rep, Rep::Empty), &mut extra)));
        match r { Err(e) => { problem = json!({"step": i + 1, "panic": e}); break }
            Ok(r) => { let (t, d) = describe(&r); if step["rep"] != t.as_str() || expected != d || !extra.is_empty() { problem = json!({"step": i + 1, "got": [t, d], "expected": step, "wrong": extra}); std::mem::forget(r); break } rep = r; } }
    }
    if problem.is_null() { drop(rep); let (leaked, twice) = leaks(); if leaked + twice + overruns() > 0 { problem = json!({"leaked": leaked, "twice": twice, "overrun": overruns()}) } } else { std::mem::forget(rep) }
    reset();
    json!({ "problem": problem })
}

fn main() {
    quiet_panics();
    serve(|case| if case["hist"].is_null() { call(case) } else { conversion(case) });
}
