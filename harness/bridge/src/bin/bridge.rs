//! Runs terms of Bridge.tla under given schedules, recording what happens for BridgeTrace.tla.
use ffi::cps::{AsyncStack, ContinuationFunction};
use ffi::{call, Any, ByteString, Closure, List, Number};
use futures::StreamExt;
use harness_ffi::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::{ready, Future, Ready};
use std::mem::transmute;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
#[path = "../../../penrt/penrt.rs"]
mod penrt;

thread_local! {
    static LOG: RefCell<Vec<Value>> = const { RefCell::new(vec![]) };
    static WAKERS: RefCell<HashMap<u64, Waker>> = RefCell::new(HashMap::new());
    static FIRED: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    static POLLING: Cell<bool> = const { Cell::new(false) };
    static IMPORT: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
static CURRENT: AtomicUsize = AtomicUsize::new(0);
static WOKEN: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
fn log(v: Value) { untracked(|| LOG.with(|l| l.borrow_mut().push(v))) }
fn woken() -> bool { WOKEN.load(SeqCst) == CURRENT.load(SeqCst) }
/// A waker of one poll; only the latest counts.
struct Gen(usize);
impl Wake for Gen {
    fn wake(self: Arc<Self>) { Wake::wake_by_ref(&self) }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.0 == CURRENT.load(SeqCst) { WOKEN.store(self.0, SeqCst);
            if POLLING.with(|p| p.get()) { log(json!({"e": "wake", "tick": false})) } }
    }
}
fn in_runtime() -> bool { tokio::runtime::Handle::try_current().is_ok() }

struct Leaf { id: u64, kind: String, n: u64, polls: u64, tick: Option<Pin<Box<tokio::time::Sleep>>> }
impl Leaf { fn new(id: u64, kind: &str, n: u64) -> Self { Leaf { id, kind: kind.into(), n, polls: 0, tick: None } } }
impl Future for Leaf {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
        let id = self.id;
        untracked(|| {
            let ready = match self.kind.as_str() {
                "ev" => FIRED.with(|f| f.borrow().contains(&id)),
                "tick" => {
                    if !in_runtime() { log(json!({"e": "notick"})); return Poll::Ready(()) }
                    if self.tick.is_none() { self.tick = Some(Box::pin(tokio::time::sleep(std::time::Duration::from_millis(1)))) }
                    self.tick.as_mut().unwrap().as_mut().poll(c).is_ready()
                }
                _ => self.polls >= self.n,
            };
            self.polls += 1;
            if !ready { WAKERS.with(|w| w.borrow_mut().insert(id, c.waker().clone())); }
            log(json!({"e": "leaf", "id": id, "ready": ready, "rt": in_runtime(), "woken": !ready && self.kind == "y"}));
            if !ready && self.kind == "y" { c.waker().wake_by_ref() }
            if ready { Poll::Ready(()) } else { Poll::Pending }
        })
    }
}

trait Val: Sized + 'static {
    fn make(digits: &[u8]) -> Self;
    fn digits(&self) -> Vec<u8>;
    fn any(self) -> Any;
    fn of(a: Any) -> Self;
    fn cat(self, other: Self) -> Self { untracked(|| { let mut d = self.digits(); d.extend(other.digits()); tracked(|| Self::make(&d)) }) }
}
impl Val for Number {
    fn make(d: &[u8]) -> Self { d.iter().fold(0.0, |a, b| a * 10.0 + *b as f64).into() }
    fn digits(&self) -> Vec<u8> { let f: f64 = (*self).into(); format!("{f}").bytes().map(|b| b.wrapping_sub(48)).collect() }
    fn any(self) -> Any { self.into() }
    fn of(a: Any) -> Self { a.try_into().unwrap_or(Number::new(-1.0)) }
}
impl Val for ByteString {
    fn make(d: &[u8]) -> Self { tracked(|| ByteString::from(d)) }
    fn digits(&self) -> Vec<u8> { self.as_slice().to_vec() }
    fn any(self) -> Any { self.into() }
    fn of(a: Any) -> Self { a.try_into().unwrap_or(ByteString::from("?")) }
}
pub struct Rich { a: u64, d: Box<Vec<u8>>, b: [u64; 3] }
impl Rich { fn raw(d: Vec<u8>) -> Self { LIVE.fetch_add(1, SeqCst); Rich { a: 0xabcd, d: tracked(|| Box::new(untracked(|| d))), b: [7; 3] } } }
impl Clone for Rich { fn clone(&self) -> Self { Rich::raw((*self.d).clone()) } }
impl Drop for Rich { fn drop(&mut self) { LIVE.fetch_sub(if self.a == 0xabcd { 1 } else { 1000 }, SeqCst); self.a = 0; } }
#[ffi::any(crate = "ffi")]
#[derive(Clone)]
pub struct RichAny(Box<Rich>);
impl Val for Rich {
    fn make(d: &[u8]) -> Self { Rich::raw(d.to_vec()) }
    fn digits(&self) -> Vec<u8> { if self.a == 0xabcd && self.b == [7; 3] { (*self.d).clone() } else { vec![99] } }
    fn any(self) -> Any { RichAny(Box::new(self)).into() }
    fn of(a: Any) -> Self { RichAny::try_from(a).map(|r| (*r.0).clone()).unwrap_or_else(|_| Rich::raw(vec![98])) }
}

/// Native computations in continuation-passing style: K = 0 continue, 1 suspend once, 2 trampoline, 3 suspend twice.
fn proceed<T: Val, V, const K: usize>(stack: &mut AsyncStack<V>, continue_: ContinuationFunction<T, V>, value: T) {
    fn again<T: Val, V>(stack: &mut AsyncStack<V>, continue_: ContinuationFunction<T, V>) {
        stack.restore::<Ready<()>>().unwrap();
        let v = stack.pop::<T>();
        stack.push(v);
        stack.suspend(last::<T, V>, continue_, ready(())).unwrap();
        stack.context().unwrap().waker().wake_by_ref();
    }
    fn last<T: Val, V>(stack: &mut AsyncStack<V>, continue_: ContinuationFunction<T, V>) {
        stack.restore::<Ready<()>>().unwrap();
        let v = stack.pop::<T>();
        continue_(stack, v)
    }
    match K {
        0 => continue_(stack, value),
        2 => stack.trampoline(continue_, value).unwrap(),
        _ => {
            stack.push(value);
            stack.suspend(if K == 1 { last::<T, V> } else { again::<T, V> }, continue_, ready(())).unwrap();
            stack.context().unwrap().waker().wake_by_ref();
        }
    }
}
extern "C" fn thunk_entry<T: Val + Clone, const K: usize>(stack: &mut AsyncStack, continue_: ContinuationFunction<T>, closure: Closure<T>) {
    let v = unsafe { (*closure.payload()).clone() };
    drop(closure);
    proceed::<T, (), K>(stack, continue_, v)
}
extern "C" fn binary_entry<T: Val + Clone, const K: usize>(stack: &mut AsyncStack<T>, continue_: ContinuationFunction<T, T>, closure: Closure<T>, x: T, y: T) {
    let v = unsafe { (*closure.payload()).clone() };
    drop(closure);
    proceed::<T, T, K>(stack, continue_, v.cat(x).cat(y))
}
unsafe extern "C" fn nullary_function<T: Val, const K: usize>(stack: &mut AsyncStack<T>, continue_: ContinuationFunction<T, T>) { proceed::<T, T, K>(stack, continue_, T::make(&[9])) }
unsafe extern "C" fn binary_function<T: Val, const K: usize>(stack: &mut AsyncStack<T>, continue_: ContinuationFunction<T, T>, x: T, y: T) { proceed::<T, T, K>(stack, continue_, x.cat(y)) }

macro_rules! pick { ($k:expr, $f:ident, $t:ty) => { match $k { 0 => $f::<$t, 0> as *const u8, 1 => $f::<$t, 1> as *const u8, 2 => $f::<$t, 2> as *const u8, _ => $f::<$t, 3> as *const u8 } } }

mod exported {
    use super::*;
    macro_rules! export { ($name:ident, $t:ty) => {
        #[ffi::bindgen]
        pub async fn $name(x: $t, y: $t) -> $t { let (id, n) = IMPORT.with(|i| i.get()); Leaf::new(id, "y", n).await; x.cat(<$t>::make(&[id as u8])).cat(y) }
    } }
    export!(bridge_import_number, Number);
    export!(bridge_import_string, ByteString);
    export!(bridge_import_rich, Rich);
}
ffi::import!(bridge_import_number, async fn(x: Number, y: Number) -> Number);
ffi::import!(bridge_import_string, async fn(x: ByteString, y: ByteString) -> ByteString);
ffi::import!(bridge_import_rich, async fn(x: Rich, y: Rich) -> Rich);

macro_rules! builder { ($module:ident, $t:ty, $import:ident) => { mod $module {
    use super::*;
    type T = $t;
    pub type F = Pin<Box<dyn Future<Output = T>>>;
    fn u(t: &Value, k: &str) -> u64 { t[k].as_u64().unwrap() }
    fn val(t: &Value, k: &str) -> T { T::make(&[u(t, k) as u8]) }
    pub fn closure(t: &Value) -> Closure {
        match t["k"].as_str().unwrap() {
            "tc" => { let f = future(&t["a"]); tracked(|| ffi::future::to_closure(f)) }
            "into" => { let f = future(&t["a"]); tracked(|| Closure::from(f)) }
            _ => { let v = val(t, "id"); let p = pick!(u(t, "n"), thunk_entry, T); tracked(|| Closure::new(p, v).into_opaque()) }
        }
    }
    pub fn future(t: &Value) -> F {
        match t["k"].as_str().unwrap() {
            "leaf" => { let l = Leaf::new(u(t, "id"), t["kind"].as_str().unwrap(), u(t, "n")); Box::pin(async move { let id = l.id; l.await; T::make(&[id as u8]) }) }
            "fc" => Box::pin(ffi::future::from_closure::<(), T>(closure(&t["a"]))),
            "call" => { let c = unsafe { transmute::<Closure, Closure<T>>(closure(&t["a"])) }; Box::pin(async move { ffi::call!(fn() -> T, c).await }) }
            "calln" => { let (v, x, y) = (val(t, "id"), val(t, "x"), val(t, "y"));
                let p = pick!(u(t, "n"), binary_entry, T);
                let c = tracked(|| Closure::<T>::new(p, v));
                Box::pin(async move { ffi::call!(fn(T, T) -> T, c, x, y).await }) }
            "ff" => match u(t, "n") { 0 => Box::pin(ffi::future::from_function(nullary_function::<T, 0>)), 1 => Box::pin(ffi::future::from_function(nullary_function::<T, 1>)),
                2 => Box::pin(ffi::future::from_function(nullary_function::<T, 2>)), _ => Box::pin(ffi::future::from_function(nullary_function::<T, 3>)) },
            "cf" => { let (x, y) = (val(t, "x"), val(t, "y")); match u(t, "n") {
                0 => Box::pin(async move { ffi::call_function!(fn(T, T) -> T, binary_function::<T, 0>, x, y).await }), 1 => Box::pin(async move { ffi::call_function!(fn(T, T) -> T, binary_function::<T, 1>, x, y).await }),
                2 => Box::pin(async move { ffi::call_function!(fn(T, T) -> T, binary_function::<T, 2>, x, y).await }), _ => Box::pin(async move { ffi::call_function!(fn(T, T) -> T, binary_function::<T, 3>, x, y).await }) } }
            "imp" => { let (id, n, x, y) = (u(t, "id"), u(t, "n"), val(t, "x"), val(t, "y"));
                let mut f = Box::pin($import(x, y));
                let mut first = true;
                Box::pin(std::future::poll_fn(move |c| { if first { IMPORT.with(|i| i.set((id, n))); first = false } f.as_mut().poll(c) })) }
            "seq" => { let (a, b) = (future(&t["a"]), future(&t["b"])); Box::pin(async move { let x = a.await; let y = b.await; x.cat(y) }) }
            "join" => { let (a, b) = (future(&t["a"]), future(&t["b"])); Box::pin(async move { let (x, y) = futures::join!(a, b); x.cat(y) }) }
            "stream" => { let (a, b) = (future(&t["a"]), future(&t["b"]));
                let e = |f: F| ffi::future::to_closure(async move { f.await.any() });
                let l: List = penrt::cons(e(a), penrt::cons(e(b), penrt::make_list(penrt::Node::Empty)));
                Box::pin(async move {
                    let s = ffi::future::stream::from_list(l);
                    let all: Vec<Any> = s.collect().await;
                    all.into_iter().map(T::of).reduce(|a, b| a.cat(b)).unwrap_or_else(|| T::make(&[97]))
                }) }
            "run" => Box::pin(ffi::runtime::run(future(&t["a"]))),
            _ => unreachable!(),
        }
    }
} } }
builder!(number, Number, bridge_import_number);
builder!(string, ByteString, bridge_import_string);
builder!(rich, Rich, bridge_import_rich);

fn drive<T: Val>(case: &Value, mut f: Pin<Box<dyn Future<Output = T>>>) {
    let mut finished = false;
    WOKEN.store(CURRENT.load(SeqCst), SeqCst);
    let poll = |f: &mut Pin<Box<dyn Future<Output = T>>>| -> bool {
        let g = CURRENT.fetch_add(1, SeqCst) + 1;
        let waker = Waker::from(Arc::new(Gen(g)));
        log(json!({"e": "begin"}));
        POLLING.with(|p| p.set(true));
        let r = f.as_mut().poll(&mut Context::from_waker(&waker));
        POLLING.with(|p| p.set(false));
        match r {
            Poll::Ready(v) => { log(json!({"e": "ready", "v": v.digits()})); true }
            Poll::Pending => { log(json!({"e": "pending", "woken": woken()})); false }
        }
    };
    let fire = |id: u64| {
        if FIRED.with(|x| x.borrow().contains(&id)) { return }
        FIRED.with(|x| x.borrow_mut().push(id));
        if let Some(w) = WAKERS.with(|w| w.borrow_mut().remove(&id)) { w.wake() }
        log(json!({"e": "fire", "id": id, "woken": woken()}));
    };
    for op in case["sched"].as_array().unwrap() {
        match op.as_str().unwrap() {
            "poll" => if !finished && woken() { finished = poll(&mut f) },
            "spur" => if !finished { finished = poll(&mut f) },
            id => if !finished { fire(id.parse().unwrap()) },
        }
    }
    for id in case["evs"].as_array().unwrap() { if !finished { while !finished && woken() { finished = poll(&mut f) } } if !finished { fire(id.as_u64().unwrap()) } }
    let ticks = case["ticks"].as_bool().unwrap_or(false);
    let mut polls = 0;
    while !finished && polls < 200 {
        if !woken() {
            let start = std::time::Instant::now();
            while ticks && !woken() && start.elapsed().as_millis() < 3000 { std::thread::sleep(std::time::Duration::from_micros(50)) }
            if !woken() { log(json!({"e": "lost"})); break }
            log(json!({"e": "wake", "tick": true}));
        }
        finished = poll(&mut f);
        polls += 1;
    }
    // a computation that did not complete is leaked: there is nothing more to learn from it
    if finished { drop(f) } else { std::mem::forget(f) }
}

fn main() {
    quiet_panics();
    serve(|case| {
        LOG.with(|l| l.borrow_mut().clear());
        WAKERS.with(|l| l.borrow_mut().clear());
        FIRED.with(|l| l.borrow_mut().clear());
        LIVE.store(0, SeqCst);
        let r = guarded(|| match case["type"].as_str().unwrap() {
            "number" => drive(case, number::future(&case["term"])),
            "string" => drive(case, string::future(&case["term"])),
            _ => drive(case, rich::future(&case["term"])),
        });
        WAKERS.with(|l| l.borrow_mut().clear());
        if let Err(e) = r { POLLING.with(|p| p.set(false)); log(json!({"e": "panic", "message": e})) }
        let (leaked, twice) = leaks();
        log(json!({"e": "end", "live": LIVE.load(SeqCst), "leaked": leaked, "twice": twice, "rt": in_runtime()}));
        reset();
        json!({ "events": LOG.with(|l| l.borrow().clone()) })
    });
}
