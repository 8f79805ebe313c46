PLANTS = {
"c01-clone-race": dict(property="C01", deps="ffi",
 edits=[("lib/ffi/src/arc/arc_block.rs", "self.inner().count.fetch_sub(1, Ordering::Relaxed);", "self.inner().count.store(count - 1, Ordering::Relaxed);")],
 needs="two threads which clone a synchronized value between each other's load and store",
 breaks="A reference is lost, and the value is destroyed while it is in use.",
 main=r'''
use pen_ffi::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct Payload(u64);
impl Drop for Payload { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let x = std::mem::ManuallyDrop::new(Arc::new(Payload(42)));
    Arc::clone(&x).synchronize();
    // The roots of all threads are never dropped, so that the value must live.
    let threads = (0..8).map(|_| {
        let y = std::mem::ManuallyDrop::new(Arc::clone(&x));
        std::thread::spawn(move || {
            for _ in 0..2_000_000 {
                drop(Arc::clone(&y));
                if DROPS.load(Ordering::Relaxed) > 0 { eprintln!("destroyed while in use"); std::process::exit(3) }
            }
        })
    }).collect::<Vec<_>>();
    for t in threads { t.join().unwrap(); }
    if DROPS.load(Ordering::SeqCst) > 0 { std::process::exit(3) }
    let _ = x.0;
}
'''),
"c01-synchronize-count": dict(property="C01", deps="ffi",
 edits=[("lib/ffi/src/arc/arc_block.rs", ".store(SYNCHRONIZED_UNIQUE_COUNT - count, Ordering::Relaxed);", ".store(SYNCHRONIZED_UNIQUE_COUNT - count.min(1), Ordering::Relaxed);")],
 needs="three or more references to a value at the time when it is synchronized",
 breaks="Synchronizing a value forgets references: the value is destroyed while it is in use.",
 main=r'''
use pen_ffi::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct Payload(u64);
impl Drop for Payload { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); } }
fn main() {
    let x = Arc::new(Payload(1));
    let mut xs = vec![x.clone(), x.clone(), x.clone()];
    x.clone().synchronize();
    drop(x);
    while xs.len() > 1 {
        xs.pop();
        if DROPS.load(Ordering::SeqCst) != 0 { eprintln!("destroyed while in use"); std::process::exit(3) }
    }
    xs.pop();
    assert_eq!(DROPS.load(Ordering::SeqCst), 1);
}
'''),
"c04-growth-once": dict(property="C04", deps="ffi",
 edits=[("lib/ffi/src/cps/stack.rs", "while self.size + type_size > self.capacity {", "if self.size + type_size > self.capacity {")],
 needs="a value more than twice as large as what the stack holds",
 breaks="The stack writes a large value behind the end of its memory.",
 main=r'''
use pen_ffi::cps::Stack;
use std::alloc::{GlobalAlloc, Layout, System};
// Memory blocks with guards behind them.
const GUARD: usize = 4096;
static BROKEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
struct Guarded;
unsafe fn extend(l: Layout) -> Layout { Layout::from_size_align(l.size() + GUARD, l.align()).unwrap() }
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(extend(l)); std::ptr::write_bytes(p.add(l.size()), 0xa5, GUARD); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // The size is known to be right only for blocks aligned like the stack's ones.
        if l.size() % 8 == 0 && (0..GUARD).any(|i| *p.add(l.size() + i) != 0xa5) { BROKEN.store(true, std::sync::atomic::Ordering::SeqCst); }
        System.dealloc(p, extend(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align(n, l.align()).unwrap());
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
#[global_allocator]
static G: Guarded = Guarded;
fn main() {
    let mut s = Stack::new(8);
    s.push([7u64; 100]);
    s.push(1u8);
    assert_eq!(s.pop::<u8>(), 1);
    assert_eq!(s.pop::<[u64; 100]>(), [7u64; 100]);
    drop(s);
    assert!(!BROKEN.load(std::sync::atomic::Ordering::SeqCst), "written behind the end");
}
'''),
"c05-context-kept": dict(property="C05", deps="ffi",
 edits=[("lib/ffi/src/cps/async_stack.rs", """        let value = callback(self);

        self.context = None;

        value""", "        callback(self)")],
 needs="use of an asynchronous stack between two polls",
 breaks="The stack hands out the context of a poll which is over (a dangling reference).",
 main=r'''
use pen_ffi::cps::AsyncStack;
fn main() {
    let mut s = AsyncStack::<()>::new(16);
    assert!(s.context().is_none());
    {
        let w = futures::task::noop_waker();
        let mut c = std::task::Context::from_waker(&w);
        s.run_with_context(&mut c, |s| assert!(s.context().is_some()));
    }
    assert!(s.context().is_none(), "context outlives the poll");
}
'''),
"c06-first-trampoline": dict(property="C06", deps="bridge",
 edits=[("lib/ffi/src/future/from_closure.rs", "trampoline = Some(stack.resume().unwrap());", "trampoline.get_or_insert(stack.resume().unwrap());")],
 needs="a closure which suspends twice with different steps or continuations",
 breaks="After the second suspension, the computation continues with the step of the first one.",
 main=r'''
use ffi::{cps::{AsyncStack, ContinuationFunction}, Closure, Number};
type K = ContinuationFunction<Number, Number>;
extern "C" fn entry(s: &mut AsyncStack<Number>, k: K, _c: Closure<()>) {
    s.push(k);
    s.trampoline(one, Number::new(1.0)).unwrap();
}
extern "C" fn one(s: &mut AsyncStack<Number>, x: Number) { s.trampoline(two, Number::new(f64::from(x) + 10.0)).unwrap(); }
extern "C" fn two(s: &mut AsyncStack<Number>, x: Number) { let k = s.pop::<K>(); k(s, Number::new(f64::from(x) * 2.0)) }
#[tokio::main]
async fn main() {
    let f = ffi::future::from_closure::<(), Number>(Closure::new(entry as *const u8, ()));
    let x = tokio::time::timeout(std::time::Duration::from_secs(20), f).await.expect("finishes");
    assert_eq!(f64::from(x), 22.0);
}
'''),
"c02-drop-of-three": dict(property="C02", deps="ffi",
 edits=[("lib/ffi/src/arc/arc_block.rs", "self.inner().count.store(count - 1, Ordering::Relaxed);", "self.inner().count.store(UNIQUE_COUNT, Ordering::Relaxed);")],
 needs="three references to a value on one thread, one of which is dropped before another one asks for in-place access",
 breaks="In-place access is granted while another reference exists.",
 main=r"""
use pen_ffi::Arc;
fn main() {
    let mut x = Arc::new(1u64);
    let y = x.clone();
    drop(x.clone());
    assert!(Arc::get_mut(&mut x).is_none(), "access granted");
    assert_eq!(*y, 1);
    // The other reference must not see the memory go.
    std::mem::forget(y);
    std::mem::forget(x);
}
"""),
"c03-take-back": dict(property="C03", deps="ffi",
 edits=[("lib/ffi-macro/src/any.rs", """                        let x = unsafe { transmute_from_payload(*any.payload()) };
                        mem::forget(any);
                        Ok(x)""", """                        Ok(unsafe { transmute_from_payload(*any.payload()) })""")],
 needs="a dynamic value which is converted back by value",
 breaks="The payload is destroyed twice.",
 main=r"""
use std::sync::atomic::{AtomicIsize, Ordering};
static ALIVE: AtomicIsize = AtomicIsize::new(0);
#[pen_ffi::any(crate = "pen_ffi")]
struct Payload { value: u32 }
impl Payload { fn new(value: u32) -> Self { ALIVE.fetch_add(1, Ordering::SeqCst); Self { value } } }
impl Clone for Payload { fn clone(&self) -> Self { Self::new(self.value) } }
impl Drop for Payload { fn drop(&mut self) { ALIVE.fetch_sub(1, Ordering::SeqCst); } }
fn main() {
    let x = pen_ffi::Any::from(Payload::new(7));
    let y = Payload::try_from(x.clone()).unwrap();
    assert_eq!(y.value, 7);
    drop(y);
    drop(x);
    assert_eq!(ALIVE.load(Ordering::SeqCst), 0);
}
"""),
"c07-failure-as-success": dict(property="C07", deps="bridge", deps_extra='',
 edits=[("lib/ffi/src/extra/result.rs", "Err(error) => Error::new(error.into()).into(),", "Err(error) => error.into(),")],
 needs="a foreign function which fails with a value that is not an error by itself",
 breaks="A failure looks like a success with the same value.",
 main=r"""
use ffi::{Any, ByteString, Error, Number};
// Stand-ins for the runtime: which conversion is used is what matters.
static ERRORS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
extern "C" fn clone(x: u64) -> u64 { x }
extern "C" fn nothing(_: u64) {}
static INFO: ffi::TypeInformation = ffi::TypeInformation::new(clone, nothing, nothing);
#[no_mangle] extern "C" fn pen_ffi_string_to_any(x: ByteString) -> Any { std::mem::forget(x); Any::new(&INFO, 1) }
#[no_mangle] extern "C" fn pen_ffi_number_to_any(_: Number) -> Any { Any::new(&INFO, 2) }
#[no_mangle] extern "C" fn pen_ffi_error_to_any(x: Error) -> Any { std::mem::forget(x); ERRORS.fetch_add(1, std::sync::atomic::Ordering::SeqCst); Any::new(&INFO, 3) }
#[no_mangle] extern "C" fn pen_ffi_none_to_any(_: ffi::None) -> Any { Any::new(&INFO, 4) }
#[ffi::bindgen]
fn _demo(fail: bool) -> Result<Number, ByteString> { if fail { Err("bad".into()) } else { Ok(Number::new(1.0)) } }
fn main() {
    std::mem::forget(_demo(false));
    assert_eq!(ERRORS.load(std::sync::atomic::Ordering::SeqCst), 0);
    std::mem::forget(_demo(true));
    assert_eq!(ERRORS.load(std::sync::atomic::Ordering::SeqCst), 1, "failure is not an error");
}
"""),
"c08-full-channel": dict(property="C08", deps="app",
 edits=[("packages/os/ffi/application/src/concurrency.rs", "cloned_sender.send(element).await.unwrap_or_default();", "cloned_sender.try_send(element).unwrap_or_default();")],
 needs="producers which are ahead of the consumer by more elements than the channel holds",
 breaks="Elements of raced lists are lost.",
 files={"penrt.rs": open("/verif/harness/penrt/penrt.rs").read()},
 main=r"""
use ffi::{Any, Closure, List, Number};
use futures::{pin_mut, StreamExt};
mod concurrency { include!(concat!(env!("REPO"), "/packages/os/ffi/application/src/concurrency.rs")); }
mod penrt;
ffi::import!(_pen_race, async fn(list: List) -> List);
#[tokio::main]
async fn main() {
    let mut all = penrt::make_list(penrt::Node::Empty);
    for l in 0..2u64 {
        let mut inner = penrt::make_list(penrt::Node::Empty);
        for i in (0..400u64).rev() {
            inner = penrt::cons(ffi::future::to_closure(async move { Any::from(Number::new((l * 1000 + i) as f64)) }), inner);
        }
        all = penrt::cons(ffi::future::to_closure(async move { Any::from(inner) }), all);
    }
    let merged = _pen_race(all).await;
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    let stream = ffi::future::stream::from_list(merged);
    pin_mut!(stream);
    let mut got = vec![vec![]; 2];
    while let Some(x) = stream.next().await {
        let n = f64::from(Number::try_from(x).unwrap()) as u64;
        got[(n / 1000) as usize].push(n % 1000);
    }
    for g in got { assert_eq!(g, (0..400).collect::<Vec<_>>()); }
}
"""),
}
