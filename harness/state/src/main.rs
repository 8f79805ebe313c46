//! Runs histories of State.tla on the states of packages/test, alone or in several threads.
use ffi::{Any, Arc, ByteString, Number};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
#[path = "../../penrt/penrt.rs"]
#[allow(dead_code)]
mod penrt;
use test_ffi as _;

#[repr(C)]
#[derive(Clone)]
struct State(Arc<Any>);
extern "C" {
    fn _pen_test_state_new() -> State;
    fn _pen_test_state_get(state: State) -> Any;
    fn _pen_test_state_set(state: State, value: Any);
    fn _pen_test_state_freeze(state: State);
}

const MANY: usize = 1024;
static LIVE: [AtomicIsize; MANY] = [const { AtomicIsize::new(0) }; MANY];
static DONE: AtomicU64 = AtomicU64::new(0);
static STAMP: AtomicU64 = AtomicU64::new(0);
static PAUSE: AtomicBool = AtomicBool::new(false);

/// A value which is counted, and which lets other threads go on while it is copied.
#[ffi::any]
struct Counted(Box<usize>);
impl Counted {
    fn new(id: usize) -> Self { LIVE[id].fetch_add(1, SeqCst); Counted(Box::new(id)) }
}
impl Clone for Counted {
    fn clone(&self) -> Self { pause(); Counted::new(*self.0) }
}
impl Drop for Counted {
    fn drop(&mut self) { LIVE[*self.0].fetch_sub(1, SeqCst); }
}
/// A value whose owners are counted without synchronization until it is told that threads share it, like those of
/// compiled programs. Only the thread which made it may copy it before.
mod plain {
    use super::*;
    use ffi::TypeInformation;
    pub static SHARED: [AtomicBool; MANY] = [const { AtomicBool::new(false) }; MANY];
    pub static OWNER: [AtomicU64; MANY] = [const { AtomicU64::new(0) }; MANY];
    pub static WRONG: AtomicU64 = AtomicU64::new(0);
    pub fn me() -> u64 { thread_local! { static ME: u64 = STAMP.fetch_add(1, SeqCst) } ME.with(|x| *x) }
    extern "C" fn clone(x: u64) -> u64 {
        if !SHARED[x as usize].load(SeqCst) && OWNER[x as usize].load(SeqCst) != me() { WRONG.store(x, SeqCst) }
        pause();
        LIVE[x as usize].fetch_add(1, SeqCst);
        x
    }
    extern "C" fn drop(x: u64) { LIVE[x as usize].fetch_sub(1, SeqCst); }
    extern "C" fn synchronize(x: u64) { SHARED[x as usize].store(true, SeqCst) }
    pub static INFO: TypeInformation = TypeInformation::new(clone, drop, synchronize);
    pub fn new(id: u64) -> Any {
        SHARED[id as usize].store(false, SeqCst);
        OWNER[id as usize].store(me(), SeqCst);
        LIVE[id as usize].fetch_add(1, SeqCst);
        Any::new(&INFO, id)
    }
}
fn pause() {
    if !PAUSE.load(SeqCst) { return }
    let (n, t) = (DONE.load(SeqCst), Instant::now());
    while DONE.load(SeqCst) == n && t.elapsed() < Duration::from_millis(3) { std::thread::yield_now() }
}
/// Strings count their owners without synchronization until a compiled program synchronizes them: they stay in one thread.
fn value(id: u64, shared: bool) -> Any {
    match id {
        0 => ffi::None::new().into(),
        _ if id % 3 == 1 => Counted::new(id as usize).into(),
        _ if shared && id % 2 == 0 => plain::new(id),
        _ if id % 3 == 2 || shared => Number::new(id as f64).into(),
        _ => ByteString::from(id.to_string()).into(),
    }
}
fn id(x: Any) -> Value {
    if let Ok(c) = <&Counted>::try_from(&x) { return json!(*c.0) }
    if std::ptr::eq(x.type_information(), &plain::INFO) { return json!(x.payload()) }
    if x.is_none() { return json!(0) }
    if x.is_number() { return Number::try_from(x).map(|n| json!(f64::from(n) as u64)).unwrap_or(json!("number")) }
    if x.is_string() { return ByteString::try_from(x).map(|s| json!(String::from_utf8_lossy(s.as_slice()).parse::<u64>().unwrap_or(9999))).unwrap_or(json!("string")) }
    json!("unknown")
}
fn live() -> Vec<Value> { (0..MANY).filter(|n| LIVE[*n].load(SeqCst) != 0).map(|n| json!([n, LIVE[n].load(SeqCst)])).collect() }
fn int(c: &Value, k: &str) -> u64 { c[k].as_u64().unwrap() }

fn history(case: &Value) -> Value {
    let mut handles: Vec<Option<State>> = vec![];
    let mut out = vec![];
    for o in case["ops"].as_array().unwrap() {
        let h = o["h"].as_u64().unwrap_or(1) as usize - 1;
        let mut v = Value::Null;
        match o["o"].as_str().unwrap() {
            "new" => handles.push(Some(unsafe { _pen_test_state_new() })),
            "share" => { let s = handles[h].clone(); handles.push(s) }
            "release" => handles[h] = None,
            "get" => v = id(unsafe { _pen_test_state_get(handles[h].clone().unwrap()) }),
            "set" => unsafe { _pen_test_state_set(handles[h].clone().unwrap(), value(int(o, "v"), false)) },
            _ => unsafe { _pen_test_state_freeze(handles[h].clone().unwrap()) },
        }
        out.push(json!({"v": v, "live": live()}));
    }
    drop(handles);
    json!({"out": out, "left": live()})
}

fn threads(case: &Value) -> Value {
    let programs: Vec<Vec<Value>> = case["threads"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().clone()).collect();
    PAUSE.store(case["pause"] == true, SeqCst);
    let state = unsafe { _pen_test_state_new() };
    state.0.clone().synchronize();
    plain::WRONG.store(0, SeqCst);
    let ready = AtomicU64::new(0);
    let mut events: Vec<(u64, Value)> = std::thread::scope(|s| {
        let n = programs.len() as u64;
        let ts: Vec<_> = programs.iter().enumerate().map(|(t, ops)| {
            let (state, ready) = (Shared(state.clone()), &ready);
            s.spawn(move || {
                let state = state;
                let mut out = vec![];
                ready.fetch_add(1, SeqCst);
                while ready.load(SeqCst) < n { std::hint::spin_loop() }
                for o in ops {
                    let (v, set) = (o["v"].as_u64().unwrap_or(0), o["o"] == "set");
                    let x = if set { Some(value(v, true)) } else { None };
                    let a = STAMP.fetch_add(1, SeqCst);
                    let got = match x { Some(x) => { unsafe { _pen_test_state_set(state.0.clone(), x) }; None } None => Some(unsafe { _pen_test_state_get(state.0.clone()) }) };
                    let b = STAMP.fetch_add(1, SeqCst);
                    DONE.fetch_add(1, SeqCst);
                    out.push((a, json!({"t": t + 1, "e": "call", "o": o["o"], "v": v})));
                    out.push((b, json!({"t": t + 1, "e": "return", "o": o["o"], "v": got.map_or(json!(v), id)})));
                }
                DONE.fetch_add(1, SeqCst);
                out
            })
        }).collect();
        ts.into_iter().flat_map(|t| t.join().unwrap()).collect()
    });
    PAUSE.store(false, SeqCst);
    drop(state);
    events.sort_by_key(|e| e.0);
    json!({"events": events.into_iter().map(|e| e.1).collect::<Vec<_>>(), "left": live(), "unsynchronized": plain::WRONG.load(SeqCst)})
}
struct Shared(State);
unsafe impl Send for Shared {}

fn main() {
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let out = if case["ops"].is_array() { history(&case) } else { threads(&case) };
        println!("{out}");
        std::io::stdout().flush().unwrap();
    }
}
