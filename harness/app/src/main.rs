//! Runs programs of Race.tla on the application runtime of packages/os, recording what happens.
use ffi::{Any, Closure, List, Number};
use futures::{pin_mut, StreamExt};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::watch;
#[path = "/repo/packages/os/ffi/application/src/concurrency.rs"]
mod concurrency;
#[path = "../../penrt/penrt.rs"]
mod penrt;

ffi::import!(_pen_spawn, async fn(closure: Closure) -> Closure);
ffi::import!(_pen_yield, async fn() -> ffi::None);
ffi::import!(_pen_race, async fn(list: List) -> List);

struct State { log: Mutex<Vec<Value>>, gate: watch::Sender<u64>, done: watch::Sender<Vec<u64>>, yielding: bool }
impl State {
    fn log(&self, v: Value) { self.log.lock().unwrap().push(v) }
    async fn wait(&self, g: u64) {
        if self.yielding { while *self.gate.borrow() < g { _pen_yield().await; } }
        else { self.gate.subscribe().wait_for(|x| *x >= g).await.unwrap(); }
    }
    async fn wait_task(&self, t: u64) {
        if self.yielding { while !self.done.borrow().contains(&t) { _pen_yield().await; } }
        else { self.done.subscribe().wait_for(|x| x.contains(&t)).await.unwrap(); }
    }
}
async fn element(s: Arc<State>, l: u64, i: u64, gate: u64) -> Any {
    s.log(json!({"e": "start", "l": l, "i": i}));
    if (l + i) % 3 == 0 { _pen_yield().await; }
    s.wait(gate).await;
    if (l * i) % 4 == 1 { tokio::task::yield_now().await; }
    s.log(json!({"e": "finish", "l": l, "i": i}));
    Number::new((l * 1000 + i) as f64).into()
}
fn ints(v: &Value) -> Vec<u64> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect() }
const LIMIT: Duration = Duration::from_secs(10);

async fn race(case: &Value, s: Arc<State>) {
    let lists: Vec<Vec<u64>> = case["lists"].as_array().unwrap().iter().map(ints).collect();
    let outer = ints(&case["outer"]);
    let at = ints(&case["at"]);
    let mut all = penrt::make_list(penrt::Node::Empty);
    for (l, row) in lists.iter().enumerate().rev() {
        let mut inner = penrt::make_list(penrt::Node::Empty);
        for (i, g) in row.iter().enumerate().rev() {
            inner = penrt::cons(ffi::future::to_closure(element(s.clone(), l as u64 + 1, i as u64 + 1, *g)), inner);
        }
        let (s, g) = (s.clone(), outer[l]);
        all = penrt::cons(ffi::future::to_closure(async move { s.wait(g).await; Any::from(inner) }), all);
    }
    let Ok(merged) = tokio::time::timeout(LIMIT, _pen_race(all)).await else { return s.log(json!({"e": "race does not return"})) };
    let stream = ffi::future::stream::from_list(merged);
    pin_mut!(stream);
    let mut n = 0;
    for g in 0..at.len() {
        if g > 0 { s.log(json!({"e": "open", "g": g})); s.gate.send_replace(g as u64); }
        while n < at[g] {
            match tokio::time::timeout(LIMIT, stream.next()).await {
                Ok(Some(x)) => { let v: f64 = Number::try_from(x).map(f64::from).unwrap_or(-1.0); s.log(json!({"e": "out", "l": (v / 1000.0).floor() as i64, "i": v as i64 % 1000})) }
                Ok(None) => return s.log(json!({"e": "ended early"})),
                Err(_) => return s.log(json!({"e": "held up"})),
            }
            n += 1;
        }
    }
    match tokio::time::timeout(LIMIT, stream.next()).await {
        Ok(None) => s.log(json!({"e": "end"})),
        Ok(Some(_)) => s.log(json!({"e": "extra element"})),
        Err(_) => s.log(json!({"e": "no end"})),
    }
}
async fn tasks(case: &Value, s: Arc<State>) {
    let deps = ints(&case["tasks"]);
    let mut handles = HashMap::new();
    for (t, d) in deps.iter().enumerate() {
        let (t, d) = (t as u64 + 1, *d);
        let outer = s.clone();
        let s = s.clone();
        let c = ffi::future::to_closure(async move {
            s.log(json!({"e": "run", "t": t}));
            if t % 2 == 0 { _pen_yield().await; }
            if d != 0 { s.wait_task(d).await }
            s.log(json!({"e": "complete", "t": t}));
            s.done.send_modify(|x| x.push(t));
            Any::from(Number::new(t as f64 * 11.0))
        });
        let Ok(h) = tokio::time::timeout(LIMIT, _pen_spawn(c)).await else { return outer.log(json!({"e": "spawn does not return"})) };
        handles.insert(t, h);
    }
    for t in ints(&case["awaits"]) {
        match tokio::time::timeout(LIMIT, ffi::future::from_closure::<(), Any>(handles.remove(&t).unwrap())).await {
            Ok(v) => { let v: f64 = Number::try_from(v).map(f64::from).unwrap_or(-1.0); s.log(json!({"e": "await", "t": t, "v": v as i64})) }
            Err(_) => return s.log(json!({"e": "never completes"})),
        }
    }
    let n = deps.len();
    match tokio::time::timeout(LIMIT, s.done.subscribe().wait_for(|x| x.len() >= n)).await {
        Ok(_) => s.log(json!({"e": "end"})),
        Err(_) => s.log(json!({"e": "spawned computation does not run"})),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut runtimes: HashMap<u64, tokio::runtime::Runtime> = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let workers = case["workers"].as_u64().unwrap();
        let rt = runtimes.entry(workers).or_insert_with(|| if workers == 0 { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap() }
            else { tokio::runtime::Builder::new_multi_thread().worker_threads(workers as usize).enable_all().build().unwrap() });
        let s = Arc::new(State { log: Mutex::new(vec![]), gate: watch::channel(0).0, done: watch::channel(vec![]).0, yielding: case["yielding"].as_bool().unwrap() });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let c = case.clone();
            let s2 = s.clone();
            // on a worker thread, so that a stuck computation does not block the driver
            if workers == 0 { rt.block_on(async { if c["tasks"].as_array().unwrap().is_empty() { race(&c, s2).await } else { tasks(&c, s2).await } }) }
            else { rt.block_on(async move { if c["tasks"].as_array().unwrap().is_empty() { race(&c, s2).await } else { tasks(&c, s2).await } }) }
        }));
        if r.is_err() { s.log(json!({"e": "panic"})) }
        let log = s.log.lock().unwrap().clone();
        let mut out = std::io::stdout().lock();
        out.write_all(serde_json::to_string(&json!({ "events": log })).unwrap().as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
    std::process::exit(0);
}
