//! Replays behaviours of AsyncStack.tla on the asynchronous stack.
use harness_ffi::*;
use pen_ffi::cps::{AsyncStack, ContinuationFunction, CpsError, StepFunction};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

type S = AsyncStack<u64>;
thread_local! { static CALLED: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
struct Small { id: u64 }
impl Future for Small { type Output = u64; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u64> { Poll::Ready(self.id) } }
struct Wide { a: [u64; 4], id: u64, b: Box<u64> }
impl Future for Wide { type Output = u64; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u64> { Poll::Ready(self.id) } }
fn wide(id: u64) -> Wide { Wide { a: [id; 4], id, b: Box::new(id) } }
impl Wide { fn id(&self) -> u64 { if self.a == [self.id; 4] && *self.b == self.id { self.id } else { 999 } } }
fn step_s(_: &mut S, c: ContinuationFunction<u64, u64>) { CALLED.with(|x| x.set((7, c as usize as u64))) }
extern "C" fn c1(_: &mut S, v: u64) { CALLED.with(|x| x.set((1, v))) }
extern "C" fn c2(_: &mut S, v: u64) { CALLED.with(|x| x.set((2, v))) }
fn cont(n: &Value) -> ContinuationFunction<u64, u64> { if n == "c1" { c1 } else { c2 } }
fn cont_name(c: ContinuationFunction<u64, u64>) -> &'static str { if c as usize == c1 as usize { "c1" } else if c as usize == c2 as usize { "c2" } else { "?" } }
struct Counter(AtomicU64);
impl Wake for Counter { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } fn wake_by_ref(self: &Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
fn expected(e: CpsError) -> Value {
    // the error names the expected action; read it from the message so that only observable behaviour counts
    match e { CpsError::MissingContext => json!("MissingContext"),
        e => { let s = e.to_string(); let n = ["Suspend", "Resume", "Restore"].into_iter().find(|n| s.contains(n)).unwrap_or("None"); json!(n) } }
}
fn refuse(e: CpsError) -> Value { json!({ "ok": false, "expected": expected(e) }) }

fn main() {
    quiet_panics();
    serve(|case| {
        let counter = Arc::new(Counter(AtomicU64::new(0)));
        let waker = Waker::from(counter.clone());
        let mut stack = S::new(case["cap"].as_u64().unwrap() as usize);
        let mut problem = Value::Null;
        for (i, step) in case["hist"].as_array().unwrap().iter().enumerate() {
            let id = step["id"].as_u64().unwrap_or(0);
            let r = guarded(|| {
                let act = |stack: &mut S| -> Value {
                    match step["op"].as_str().unwrap() {
                        "Suspend" => { let r = if step["f"] == "r" { stack.suspend(step_s, cont(&step["c"]), Small { id }) } else { stack.suspend(step_s, cont(&step["c"]), wide(id)) };
                            match r { Ok(()) => json!({"ok": true}), Err(e) => refuse(e) } }
                        "Trampoline" => match stack.trampoline(cont(&step["c"]), id) { Ok(()) => json!({"ok": true}), Err(e) => refuse(e) },
                        "Resume" => match stack.resume::<u64>() {
                            Err(e) => refuse(e),
                            Ok((s, c)) => {
                                CALLED.with(|x| x.set((0, 0)));
                                s(stack, c);
                                let (who, v) = CALLED.with(|x| x.get());
                                if who == 7 { json!({"ok": true, "step": "s", "c": if v == c as usize as u64 { cont_name(c) } else { "?" }, "v": 0}) }
                                else { json!({"ok": true, "step": "t", "c": match who { 1 => "c1", 2 => "c2", _ => "?" }, "v": v}) }
                            } },
                        "Restore" => if step["f"] == "r" { match stack.restore::<Small>() { Ok(f) => json!({"ok": true, "v": f.id}), Err(e) => refuse(e) } }
                            else { match stack.restore::<Wide>() { Ok(f) => json!({"ok": true, "v": f.id()}), Err(e) => refuse(e) } },
                        "Push" => { stack.push(id); json!({}) }
                        "Pop" => json!({"v": stack.pop::<u64>()}),
                        "Resolve" => { stack.resolve(id); json!({}) }
                        "Resolved" => json!({"v": stack.resolved_value().unwrap_or(0)}),
                        _ => unreachable!(),
                    }
                };
                let inside = step["ctx"] == true;
                let v = if inside { let mut c = Context::from_waker(&waker); stack.run_with_context(&mut c, |s| { let had = s.context().is_some(); let mut v = act(s); if !had || s.context().is_none() { v["nocontext"] = json!(true) } v }) } else { act(&mut stack) };
                if stack.context().is_some() { json!({"context_outlives_run": true}) } else { v }
            });
            let mut got = r.unwrap_or_else(|e| json!({ "panic": e }));
            got["wakes"] = json!(counter.0.load(SeqCst));
            // the observation must contain exactly what the specification says about this step
            let ok = got.as_object().unwrap().iter().all(|(k, v)| &step[k] == v) && (step.get("ok").is_none() || got.get("ok") == step.get("ok"));
            if !ok { problem = json!({ "step": i + 1, "got": got, "expected": step }); break }
        }
        if problem.is_null() && case["leftok"] == true {
            for x in case["left"].as_array().unwrap().iter().rev() {
                let id = x[2].as_u64().unwrap();
                let ok = guarded(|| match (x[0].as_str().unwrap(), x[1].as_str().unwrap()) {
                    ("user", _) | ("val", _) => stack.pop::<u64>() == id,
                    ("fut", "r") => stack.pop::<Small>().id == id,
                    ("fut", _) => stack.pop::<Wide>().id() == id,
                    ("cont", c) => cont_name(stack.pop()) == c,
                    ("step", "s") => stack.pop::<StepFunction<u64, u64>>() as usize == step_s as usize,
                    ("step", _) => { stack.pop::<StepFunction<u64, u64>>(); true }
                    _ => unreachable!(),
                });
                if ok != Ok(true) { problem = json!({ "step": "end", "remaining": x, "result": format!("{ok:?}") }); break }
            }
        }
        json!({ "problem": problem })
    });
}
