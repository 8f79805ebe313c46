//! Replays behaviours of SharedValue.tla on Arc, ArcBuffer and ByteString.
use harness_ffi::*;
use pen_ffi::{Arc, ArcBuffer, ByteString, Closure};
use std::cell::RefCell;
use std::mem::transmute;

thread_local! { static DESTROYED: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) }; }

trait Shared: Sized {
    fn make(kind: &str, id: usize, value: i64) -> Self;
    fn dup(&self) -> Self;
    fn share(&self);
    fn get(&self) -> i64;
    /// whether the contents were changed in place
    fn set(&mut self, value: i64) -> bool;
    /// Does destruction of this payload leave a mark?
    const MARKS: bool = false;
}

trait Payload: 'static { fn new(id: usize, v: i64) -> Self; fn get(&self) -> i64; fn set(&mut self, v: i64); const MARKS: bool = false; }

macro_rules! plain { ($t:ty) => { impl Payload for $t {
    fn new(_: usize, v: i64) -> Self { v as $t } fn get(&self) -> i64 { *self as i64 } fn set(&mut self, v: i64) { *self = v as $t } } } }
plain!(u8); plain!(u32); plain!(f64);

struct Rich { canary: u64, id: usize, value: Box<i64>, tail: u8 }
// Cloning a closure must not clone its environment: a copy made here has the identity 998, which no object has.
impl Clone for Rich { fn clone(&self) -> Self { Rich { canary: self.canary, id: 998, value: self.value.clone(), tail: self.tail } } }
impl Payload for Rich {
    fn new(id: usize, v: i64) -> Self { Rich { canary: 0x5ca1ab1e, id, value: Box::new(v), tail: 9 } }
    fn get(&self) -> i64 { if self.canary != 0x5ca1ab1e || self.tail != 9 { return -999 } *self.value }
    fn set(&mut self, v: i64) { *self.value = v }
    const MARKS: bool = true;
}
impl Drop for Rich { fn drop(&mut self) {
    let id = if self.canary == 0x5ca1ab1e { self.id } else { 999 };
    DESTROYED.with(|d| untracked(|| d.borrow_mut().push(id)));
    if id == 999 { unsafe { std::ptr::write(&mut self.value, Box::new(0)) } } // destroyed again: do not follow the pointer
} }

#[repr(C)] struct Static<T> { count: isize, payload: T }

struct Typed<T> { arc: Result<Arc<T>, Arc<()>> }
impl<T: Payload> Shared for Typed<T> {
    fn make(kind: &str, id: usize, value: i64) -> Self {
        let arc = match kind {
            "heap" => { let p = untracked(|| T::new(id, value)); Ok(Arc::new(p)) }
            "static" => { let b = untracked(|| Box::leak(Box::new(Static { count: isize::MIN, payload: T::new(id, value) })));
                Ok(unsafe { transmute::<*const T, Arc<T>>(&b.payload) }) }
            _ => Err(Arc::new(())),
        };
        Typed { arc }
    }
    fn dup(&self) -> Self { Typed { arc: match &self.arc { Ok(a) => Ok(a.clone()), Err(a) => Err(a.clone()) } } }
    fn share(&self) { match &self.arc { Ok(a) => a.clone().synchronize(), Err(a) => a.clone().synchronize() } }
    fn get(&self) -> i64 { match &self.arc { Ok(a) => untracked(|| (**a).get()), Err(a) => { let _: &() = a; 0 } } }
    fn set(&mut self, value: i64) -> bool { match &mut self.arc {
        Ok(a) => match Arc::get_mut(a) { Some(x) => { untracked(|| x.set(value)); true } None => false },
        Err(a) => Arc::get_mut(a).is_some() } }
    const MARKS: bool = T::MARKS;
}

fn bytes(value: i64, n: usize) -> Vec<u8> { (0..n).map(|i| (value as u8).wrapping_mul(16).wrapping_add(i as u8 % 16)).collect() }
fn value_of(b: &[u8], n: usize) -> i64 { if b.is_empty() { return 0 } for v in 0..16 { if b == bytes(v, n) { return v } } -999 }

struct Buffer<const N: usize> { b: ArcBuffer }
impl<const N: usize> Shared for Buffer<N> {
    fn make(kind: &str, _: usize, value: i64) -> Self {
        Buffer { b: match kind {
            "heap" => { let v = untracked(|| bytes(value, N)); let b = ArcBuffer::from(v.as_slice()); untracked(|| drop(v)); b }
            "static" => untracked(|| { let mut words = vec![isize::MIN as usize, N]; words.resize(2 + N.div_ceil(8), 0);
                let w = Box::leak(words.into_boxed_slice());
                unsafe { std::ptr::copy_nonoverlapping(bytes(value, N).as_ptr(), (w.as_mut_ptr() as *mut u8).add(16), N);
                    transmute::<*const usize, ArcBuffer>(w.as_ptr().add(1)) } }),
            _ => ArcBuffer::new(0),
        } }
    }
    fn dup(&self) -> Self { Buffer { b: self.b.clone() } }
    fn share(&self) { let a: Arc<()> = unsafe { transmute::<ArcBuffer, Arc<()>>(self.b.clone()) }; a.synchronize() }
    fn get(&self) -> i64 { untracked(|| value_of(self.b.as_slice(), N)) }
    fn set(&mut self, value: i64) -> bool {
        let before = self.b.as_slice().as_ptr();
        let s = self.b.as_slice_mut();
        if s.is_empty() { return false }
        if s.len() != N { return true }
        let v = untracked(|| bytes(value, N)); s.copy_from_slice(&v); untracked(|| drop(v));
        before == self.b.as_slice().as_ptr()
    }
}
struct Text { s: ByteString }
impl Shared for Text {
    fn make(kind: &str, id: usize, value: i64) -> Self {
        Text { s: match kind {
            "heap" => { let v = untracked(|| bytes(value, 11)); let s = ByteString::from(v.as_slice()); untracked(|| drop(v)); s }
            "static" => unsafe { transmute::<ArcBuffer, ByteString>(Buffer::<11>::make(kind, id, value).b) },
            _ => ByteString::from(""),
        } }
    }
    fn dup(&self) -> Self { Text { s: self.s.clone() } }
    fn share(&self) { let a: Arc<()> = unsafe { transmute::<ByteString, Arc<()>>(self.s.clone()) }; a.synchronize() }
    fn get(&self) -> i64 { untracked(|| value_of(self.s.as_slice(), 11)) }
    fn set(&mut self, _: i64) -> bool { false }
}

struct Clo<T> { c: Closure<T> }
impl<T: Payload + Clone> Shared for Clo<T> {
    fn make(_: &str, id: usize, value: i64) -> Self { let p = untracked(|| T::new(id, value)); Clo { c: Closure::new((1000 + id) as *const u8, p) } }
    fn dup(&self) -> Self { Clo { c: self.c.clone() } }
    fn share(&self) {}
    fn get(&self) -> i64 { if (self.c.entry_function() as usize) < 1001 { return -998 } untracked(|| unsafe { (*self.c.payload()).get() }) }
    fn set(&mut self, _: i64) -> bool { false }
    const MARKS: bool = T::MARKS;
}
struct Opaque<T> { c: Closure, p: std::marker::PhantomData<T> }
impl<T: Payload> Shared for Opaque<T> {
    fn make(_: &str, id: usize, value: i64) -> Self { let p = untracked(|| T::new(id, value)); Opaque { c: Closure::new((1000 + id) as *const u8, p).into_opaque(), p: Default::default() } }
    fn dup(&self) -> Self { Opaque { c: self.c.clone(), p: Default::default() } }
    fn share(&self) {}
    fn get(&self) -> i64 { if (self.c.entry_function() as usize) < 1001 { return -998 } let p = self.c.payload() as *const T; untracked(|| unsafe { (*p).get() }) }
    fn set(&mut self, _: i64) -> bool { false }
    const MARKS: bool = T::MARKS;
}

struct Object { from: usize, to: usize, kind: String }

fn run<S: Shared>(case: &Value) -> Value {
    DESTROYED.with(|d| d.borrow_mut().clear());
    let mut slots: Vec<Option<S>> = (0..8).map(|_| None).collect();
    let mut objects: Vec<Object> = vec![];
    let mut problem = Value::Null;
    let hist = case["hist"].as_array().unwrap();
    let skip_mutate = case["nomut"].as_bool().unwrap_or(false);
    for (i, step) in hist.iter().enumerate() {
        let arg = |k: usize| step["args"][k].as_i64().unwrap();
        let expected = &step["obs"];
        let outcome = guarded(|| tracked(|| {
            match step["op"].as_str().unwrap() {
                "new" => {
                    let kind = step["args"][1].as_str().unwrap();
                    let id = untracked(|| objects.len() + 1);
                    let value = if kind == "empty" { 0 } else { id as i64 };
                    let from = mark();
                    slots[arg(0) as usize] = Some(S::make(kind, id, value));
                    untracked(|| objects.push(Object { from, to: mark(), kind: kind.to_string() }));
                    true
                }
                "clone" => { let c = slots[arg(0) as usize].as_ref().unwrap().dup(); slots[arg(1) as usize] = Some(c); true }
                "drop" => { let s = slots[arg(0) as usize].take(); drop(s); true }
                "share" => { slots[arg(0) as usize].as_ref().unwrap().share(); true }
                "mutate" => if skip_mutate { step["ok"].as_bool().unwrap() } else {
                    let from = mark();
                    let r = slots[arg(0) as usize].as_mut().unwrap().set(arg(1));
                    if mark() > from { untracked(|| objects.push(Object { from, to: mark(), kind: "heap".into() })) }
                    r },
                _ => unreachable!(),
            }
        }));
        let outcome = match outcome { Ok(b) => json!(b), Err(e) => json!({ "panic": e }) };
        let seen: Vec<i64> = (1..=expected["seen"].as_array().unwrap().len()).map(|s| slots[s].as_ref().map_or(-1, |x| x.get())).collect();
        let dead: Vec<i64> = objects.iter().enumerate().map(|(k, o)| {
            let bs = blocks(o.from, o.to);
            if o.kind != "heap" { return if bs.iter().any(|b| b.frees > 0) { 77 } else { 0 } }
            if bs.is_empty() { return 66 }
            let marks = DESTROYED.with(|d| d.borrow().iter().filter(|x| **x == k + 1).count()) as i64;
            let frees = bs.iter().map(|b| b.frees).max().unwrap() as i64;
            let all = bs.iter().all(|b| b.frees > 0);
            if S::MARKS && marks != frees { return 100 + 10 * marks + frees }
            if all { frees } else { 0 }
        }).collect();
        let got = json!({ "ok": outcome, "obs": { "seen": seen, "dead": dead } });
        let same = if skip_mutate { true } else { got["ok"] == step["ok"] && got["obs"]["seen"] == expected["seen"] && got["obs"]["dead"] == expected["dead"] };
        let alias = DESTROYED.with(|d| d.borrow().contains(&999));
        if !same || alias { problem = json!({ "step": i + 1, "got": got, "destroyed_twice": alias, "expected": step }); break }
    }
    if problem.is_null() {
        let r = guarded(|| tracked(|| { for s in slots.iter_mut() { drop(s.take()) } }));
        let (leaked, twice) = leaks();
        let overrun = overruns();
        if r.is_err() || leaked > 0 || twice > 0 || overrun > 0 {
            problem = json!({ "step": "end", "written_out_of_bounds": overrun, "leaked": leaked, "freed_twice": twice, "panic": r.err() });
        }
    } else { for s in slots.iter_mut() { std::mem::forget(s.take()) } }
    drop(slots);
    reset();
    json!({ "problem": problem })
}

fn main() {
    quiet_panics();
    serve(|case| match case["payload"].as_str().unwrap() {
        "u8" => run::<Typed<u8>>(case),
        "u32" => run::<Typed<u32>>(case),
        "f64" => run::<Typed<f64>>(case),
        "rich" => run::<Typed<Rich>>(case),
        "buffer1" => run::<Buffer<1>>(case),
        "buffer7" => run::<Buffer<7>>(case),
        "buffer64" => run::<Buffer<64>>(case),
        "text" => run::<Text>(case),
        "closure_rich" => run::<Clo<Rich>>(case),
        "closure_f64" => run::<Clo<f64>>(case),
        "opaque_rich" => run::<Opaque<Rich>>(case),
        "opaque_u8" => run::<Opaque<u8>>(case),
        _ => unreachable!(),
    });
}
