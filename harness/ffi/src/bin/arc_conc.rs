//! Explores thread schedules of the real reference-counting code at the granularity of its atomic operations and
//! records every distinct execution for validation by ArcTrace.tla.
use harness_ffi::*;
use pen_ffi::verif::{set_observer, Event, Operation};
use pen_ffi::Arc;
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status { Running, Waiting, Finished }
struct Sched { status: Vec<Status>, granted: Option<usize>, events: Vec<String>, aborted: bool }
static SCHED: Mutex<Sched> = Mutex::new(Sched { status: vec![], granted: None, events: vec![], aborted: false });
static CONTROLLER: Condvar = Condvar::new();
static WORKERS: Condvar = Condvar::new();
static BLOCK: AtomicUsize = AtomicUsize::new(0);
static FREEING: AtomicBool = AtomicBool::new(false);

thread_local! { static ME: Cell<usize> = const { Cell::new(0) }; }
fn me() -> usize { ME.try_with(|m| m.get()).unwrap_or(0) }

fn log(s: String) { SCHED.lock().unwrap().events.push(s); }
fn point() {
    let t = me();
    if t == 0 { return }
    let mut g = SCHED.lock().unwrap();
    if g.aborted { return }
    g.status[t] = Status::Waiting;
    CONTROLLER.notify_one();
    while g.granted != Some(t) && !g.aborted { g = WORKERS.wait(g).unwrap(); }
    g.granted = None;
    g.status[t] = Status::Running;
}
fn order(o: Ordering) -> &'static str {
    match o { Ordering::Relaxed => "Relaxed", Ordering::Acquire => "Acquire", Ordering::Release => "Release", Ordering::AcqRel => "AcqRel", _ => "SeqCst" }
}
fn observer(e: Event) {
    let t = me();
    if t == 0 { return }
    if !e.done { return point() }
    let (k, o) = match e.operation { Operation::Load(o) => ("load", o), Operation::Store(o) => ("store", o), Operation::ReadModifyWrite(o) => ("rmw", o), Operation::Fence(o) => ("fence", o) };
    log(format!("{{\"e\":\"{k}\",\"t\":{t},\"o\":\"{}\",\"v\":{}}}", order(o), e.new.clamp(-1_000_000, 1_000_000)));
}
fn on_free(p: usize) {
    if p == BLOCK.load(Ordering::SeqCst) && !FREEING.swap(true, Ordering::SeqCst) {
        let t = me();
        untracked(|| log(format!("{{\"e\":\"free\",\"t\":{t}}}")));
        FREEING.store(false, Ordering::SeqCst);
    }
}

struct P { canary: u64, value: u64 }
const CANARY: u64 = 0x0123_4567_89ab_cdef;
impl Drop for P { fn drop(&mut self) { let t = me(); untracked(|| log(format!("{{\"e\":\"destroy\",\"t\":{t}}}"))); } }

fn step(op: &str, t: usize, f: impl FnOnce() -> bool) {
    point_begin(op, t);
    let ok = f();
    log(format!("{{\"e\":\"end\",\"t\":{t},\"op\":\"{op}\",\"ok\":{ok}}}"));
}
fn point_begin(op: &str, t: usize) { point(); log(format!("{{\"e\":\"begin\",\"t\":{t},\"op\":\"{op}\"}}")); }

fn worker(t: usize, first: Arc<P>, program: Vec<String>) {
    ME.with(|m| m.set(t));
    point();
    let mut handles = vec![first];
    for op in program.iter().map(|s| s.as_str()).chain(std::iter::repeat("rest")) {
        if op == "rest" && handles.is_empty() { break }
        match op {
            "clone" => step("clone", t, || { let h = handles.last().unwrap().clone(); handles.push(h); true }),
            "drop" | "rest" => { let h = handles.pop().unwrap(); step("drop", t, move || { drop(h); true }) }
            "read" => { let ok = handles.last().unwrap().canary == CANARY; log(format!("{{\"e\":\"read\",\"t\":{t},\"ok\":{ok}}}")) }
            "mutate" => { let h = handles.last_mut().unwrap(); let mut w = false;
                step("mutate", t, || { w = Arc::get_mut(h).is_some(); w });
                if w { h_write(h, t) } }
            _ => unreachable!(),
        }
    }
    let mut g = SCHED.lock().unwrap();
    g.status[t] = Status::Finished;
    CONTROLLER.notify_one();
    drop(g);
    ME.with(|m| m.set(0));
}
fn h_write(h: &Arc<P>, t: usize) {
    log(format!("{{\"e\":\"write\",\"t\":{t}}}"));
    unsafe { (*(&**h as *const P as *mut P)).value += 1 }
}

/// One execution; `choices` are followed as long as they last, then the default (stay on the thread) is taken.
fn execute(programs: &[Vec<String>], choices: &[usize]) -> (Vec<String>, Vec<(Vec<usize>, usize, Option<usize>)>, bool) {
    let k = programs.len();
    { let mut g = SCHED.lock().unwrap(); g.status = vec![Status::Running; k + 1]; g.status[0] = Status::Finished; g.granted = None; g.events.clear(); g.aborted = false; }
    let from = mark();
    let first = tracked(|| Arc::new(P { canary: CANARY, value: 0 }));
    let b = blocks(from, mark());
    BLOCK.store(b.first().map_or(0, |b| b.address), Ordering::SeqCst);
    first.clone().synchronize();
    let mut handles: Vec<Arc<P>> = (1..k).map(|_| first.clone()).collect();
    handles.push(first);
    let threads: Vec<_> = programs.iter().enumerate().map(|(i, p)| { let h = handles.pop().unwrap(); let p = p.clone(); std::thread::spawn(move || worker(i + 1, h, p)) }).collect();
    let mut trail = vec![];
    let mut current: Option<usize> = None;
    let mut stuck = false;
    loop {
        let mut g = SCHED.lock().unwrap();
        while g.status.iter().any(|s| *s == Status::Running) { g = CONTROLLER.wait(g).unwrap(); }
        let enabled: Vec<usize> = (1..=k).filter(|t| g.status[*t] == Status::Waiting).collect();
        if enabled.is_empty() { break }
        if trail.len() > 300 { stuck = true; g.aborted = true; drop(g); WORKERS.notify_all(); break }
        let choice = match choices.get(trail.len()) { Some(c) => *c, None => current.filter(|c| enabled.contains(c)).unwrap_or(enabled[0]) };
        trail.push((enabled, choice, current));
        current = Some(choice);
        g.granted = Some(choice);
        g.status[choice] = Status::Running;
        drop(g);
        WORKERS.notify_all();
    }
    for t in threads { let _ = t.join(); }
    let mut g = SCHED.lock().unwrap();
    let mut events = std::mem::take(&mut g.events);
    drop(g);
    events.push(if stuck { "{\"e\":\"stuck\"}".into() } else { "{\"e\":\"finish\"}".into() });
    reset();
    (events, trail, stuck)
}

fn main() {
    quiet_panics();
    set_observer(Some(observer));
    ON_FREE.store(on_free as *mut (), Ordering::SeqCst);
    serve(|case| {
        let programs: Vec<Vec<String>> = case["threads"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect()).collect();
        let bound = case["bound"].as_u64().unwrap() as usize;
        let limit = case["limit"].as_u64().unwrap() as usize;
        let mut seen = HashSet::new();
        let mut traces = vec![];
        let mut runs = 0;
        let mut stack: Vec<Vec<usize>> = vec![vec![]];
        // depth-first enumeration of schedules with at most `bound` preemptions
        while let Some(prefix) = stack.pop() {
            if runs >= limit { break }
            let (events, trail, _) = execute(&programs, &prefix);
            runs += 1;
            let key = events.join(",");
            if seen.insert(key.clone()) { traces.push(serde_json::from_str::<Value>(&format!("[{key}]")).unwrap()); }
            for i in (prefix.len()..trail.len()).rev() {
                let (enabled, chosen, _) = &trail[i];
                for alt in enabled.iter().filter(|a| *a != chosen) {
                    let mut p: Vec<usize> = trail[..i].iter().map(|x| x.1).collect();
                    p.push(*alt);
                    let preemptions = p.iter().enumerate().filter(|(j, c)| trail.get(*j).is_some_and(|(en, _, cur)| cur.is_some_and(|cur| cur != **c && en.contains(&cur)))).count();
                    if preemptions <= bound { stack.push(p); }
                }
            }
        }
        json!({ "runs": runs, "complete": stack.is_empty(), "traces": traces })
    });
}
