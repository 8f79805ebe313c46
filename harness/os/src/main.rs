//! Runs histories of Files.tla and programs of Sockets.tla on the native parts of the OS packages.
//! The asynchronous package (harness/os) and the synchronous one (harness/os-sync) are called in the same way.
use ffi::{Any, Arc, ByteString, List, Number};
use native as _;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::path::Path;
#[path = "../../penrt/penrt.rs"]
#[allow(dead_code)]
mod penrt;
mod net;

#[cfg(feature = "sync")]
#[macro_export]
macro_rules! native { ($($n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(pub async fn $n($($a: $t),*) -> $r {
    extern "C" { fn $n($($a: $t),*) -> $r; }
    unsafe { $n($($a),*) }
})* } }
#[cfg(not(feature = "sync"))]
#[macro_export]
macro_rules! native { ($($n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(ffi::import!($n, async fn($($a: $t),*) -> $r);)* } }
/// What both packages offer as plain functions.
macro_rules! plain { ($($n:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { extern "C" { $(fn $n($($a: $t),*) -> $r;)* } } }

/// A value of one field of type any in a box, like those of files, listeners, streams and sockets.
#[repr(C)]
#[derive(Clone)]
pub struct Object(pub Arc<Any>);
#[ffi::any]
#[derive(Clone)]
struct Held(Object);
macro_rules! objects { ($($n:ident),*) => { $(#[no_mangle] extern "C" fn $n(x: Object) -> Any { Held(x).into() })* } }
objects!(_pen_os_file_to_any, _pen_os_tcp_listener_to_any, _pen_os_tcp_stream_to_any, _pen_os_udp_socket_to_any);
#[repr(C)]
#[derive(Clone)]
struct Metadata(Arc<Number>);
#[no_mangle]
extern "C" fn _pen_os_file_metadata_to_any(x: Metadata) -> Any { penrt::number::any(*x.0) }
/// An accepted stream and its address, or a datagram and its address.
#[repr(C)]
pub struct Peer { pub stream: Object, pub address: ByteString }
#[repr(C)]
#[derive(Clone)]
pub struct Accepted(pub Arc<Peer>);
#[ffi::any]
#[derive(Clone)]
pub struct HeldAccepted(pub Accepted);
#[no_mangle]
extern "C" fn _pen_os_tcp_accepted_stream_to_any(x: Accepted) -> Any { HeldAccepted(x).into() }
#[repr(C)]
pub struct Pair { pub data: ByteString, pub address: ByteString }
#[repr(C)]
#[derive(Clone)]
pub struct Datagram(pub Arc<Pair>);
#[ffi::any]
#[derive(Clone)]
pub struct HeldDatagram(pub Datagram);
#[no_mangle]
extern "C" fn _pen_os_udp_datagram_to_any(x: Datagram) -> Any { HeldDatagram(x).into() }

#[repr(C)]
struct Flags { append: bool, create: bool, create_new: bool, read: bool, truncate: bool, write: bool }
#[repr(C)]
#[derive(Clone)]
struct Options(Arc<Flags>);

native! {
    _pen_os_open_file(path: ByteString, options: Options) -> Any;
    _pen_os_read_file(file: Object) -> Any;
    _pen_os_read_limit_file(file: Object, limit: Number) -> Any;
    _pen_os_write_file(file: Object, data: ByteString) -> Any;
    _pen_os_copy_file(a: ByteString, b: ByteString) -> Any;
    _pen_os_move_file(a: ByteString, b: ByteString) -> Any;
    _pen_os_remove_file(a: ByteString) -> Any;
    _pen_os_read_metadata(a: ByteString) -> Any;
    _pen_os_read_directory(a: ByteString) -> Any;
    _pen_os_create_directory(a: ByteString) -> Any;
    _pen_os_remove_directory(a: ByteString) -> Any;
    _pen_os_sleep(ms: Number) -> ffi::None;
    _pen_os_read_stdin() -> Any;
    _pen_os_read_limit_stdin(limit: Number) -> Any;
    _pen_os_write_stdout(data: ByteString) -> Any;
    _pen_os_write_stderr(data: ByteString) -> Any;
    _pen_os_exit(code: Number) -> ffi::None;
}
#[cfg(not(feature = "sync"))]
native! { _pen_os_run_command(command: ByteString, arguments: List) -> Any; }
#[cfg(feature = "sync")]
async fn _pen_os_run_command(_: ByteString, _: List) -> Any { penrt::none::any(ffi::None::default()) }
plain! {
    _pen_os_get_time() -> Number;
    _pen_os_get_arguments() -> List;
    _pen_os_get_environment_variable(name: ByteString) -> Any;
}

pub fn failed(x: &Any) -> bool { penrt::error::is(x) }
pub fn object(x: Any) -> Option<Object> { <&Held>::try_from(&x).ok().map(|h| h.0.clone()) }
pub fn bytes(s: &ByteString) -> Value { json!(s.as_slice()) }
/// Errors have messages.
fn message(x: Any) -> Value {
    let source = penrt::error_source(&penrt::error::take(x).unwrap());
    if penrt::string::is(&source) { json!({"ok": false}) } else { json!({"ok": "an error without a message"}) }
}
pub fn show(x: Any) -> Value {
    if failed(&x) { return message(x) }
    if penrt::none::is(&x) { return json!({"ok": true}) }
    if penrt::number::is(&x) { return json!({"ok": true, "v": [f64::from(penrt::number::take(x).unwrap())]}) }
    if penrt::string::is(&x) { return json!({"ok": true, "v": bytes(&penrt::string::take(x).unwrap())}) }
    if penrt::list::is(&x) {
        let mut v: Vec<String> = penrt::to_vec(&penrt::list::take(x).unwrap()).into_iter().map(|s| if penrt::string::is(&s) { String::from_utf8_lossy(penrt::string::take(s).unwrap().as_slice()).to_string() } else { "\u{0}".into() }).collect();
        v.sort();
        return json!({"ok": true, "v": v});
    }
    json!({"ok": "an unknown value"})
}
pub fn int(v: &Value) -> usize { v.as_u64().unwrap() as usize }
pub fn octets(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
pub fn text(v: &Value) -> ByteString { if let Some(s) = v.as_str() { s.into() } else { octets(v).into() } }

fn tree(root: &Path, at: &Path, out: &mut Vec<Value>) {
    let Ok(entries) = std::fs::read_dir(at) else { return };
    for e in entries.flatten() {
        let p = e.path();
        let name: Vec<String> = p.strip_prefix(root).unwrap().iter().map(|s| s.to_string_lossy().to_string()).collect();
        if p.is_dir() {
            out.push(json!({"p": name, "v": [-1]}));
            tree(root, &p, out);
        } else {
            out.push(json!({"p": name, "v": std::fs::read(&p).unwrap_or_default()}));
        }
    }
}
async fn files(case: &Value, root: &Path) -> Value {
    for e in case["start"].as_array().unwrap() {
        let p = root.join(e["p"].as_str().unwrap());
        if e["v"] == json!([-1]) { std::fs::create_dir_all(p).unwrap() } else {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, octets(&e["v"])).unwrap()
        }
    }
    // Paths come as text after the root, or as bytes on their own.
    let path = |v: &Value| -> ByteString { if let Some(s) = v.as_str() { format!("{}{}", root.display(), s).into() } else { octets(v).into() } };
    let mut hs: Vec<Option<Object>> = vec![];
    let mut out = vec![];
    for o in case["ops"].as_array().unwrap() {
        let handle = || hs[int(&o["h"]) - 1].clone().unwrap();
        let r = match o["o"].as_str().unwrap() {
            "open" => {
                let f = |k: &str| o["f"][k] == true;
                let x = _pen_os_open_file(path(&o["p"]), Options(Arc::new(Flags { append: f("append"), create: f("create"), create_new: f("createNew"), read: f("read"), truncate: f("truncate"), write: f("write") }))).await;
                if failed(&x) { message(x) } else { match object(x) { Some(x) => { hs.push(Some(x)); json!({"ok": true}) } None => json!({"ok": "no file"}) } }
            }
            "read" => show(_pen_os_read_file(handle()).await),
            "limit" => show(_pen_os_read_limit_file(handle(), (int(&o["n"]) as f64).into()).await),
            "write" => show(_pen_os_write_file(handle(), octets(&o["d"]).into()).await),
            "close" => { hs[int(&o["h"]) - 1] = None; json!({"ok": true}) }
            "copy" => show(_pen_os_copy_file(path(&o["p"]), path(&o["q"])).await),
            "move" => show(_pen_os_move_file(path(&o["p"]), path(&o["q"])).await),
            "remove" => show(_pen_os_remove_file(path(&o["p"])).await),
            "size" => show(_pen_os_read_metadata(path(&o["p"])).await),
            "mkdir" => show(_pen_os_create_directory(path(&o["p"])).await),
            "rmdir" => show(_pen_os_remove_directory(path(&o["p"])).await),
            "list" => show(_pen_os_read_directory(path(&o["p"])).await),
            x => panic!("{x}"),
        };
        let mut disk = vec![];
        tree(root, root, &mut disk);
        out.push(json!({"r": r, "disk": disk}));
    }
    json!({"out": out})
}
async fn process(case: &Value, root: &Path) -> Value {
    let mut out = vec![];
    let start = std::time::Instant::now();
    let clock = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as f64;
    for o in case["ops"].as_array().unwrap() {
        out.push(match o["o"].as_str().unwrap() {
            "arguments" => {
                let x = unsafe { _pen_os_get_arguments() };
                json!(penrt::to_vec(&x).into_iter().map(|x| bytes(&penrt::string::take(x).unwrap())).collect::<Vec<_>>())
            }
            "variable" => show(unsafe { _pen_os_get_environment_variable(text(&o["n"])) }),
            "now" => { let a = clock(); let x = f64::from(unsafe { _pen_os_get_time() }); let b = clock(); json!([a, x, b]) }
            "sleep" => { let a = start.elapsed().as_micros() as u64; _pen_os_sleep((int(&o["n"]) as f64).into()).await; json!([a, start.elapsed().as_micros() as u64]) }
            "run" => {
                let list: List = o["as"].as_array().unwrap().iter().map(|a| text(a)).collect::<Vec<_>>().into();
                let r = show(_pen_os_run_command(text(&o["c"]), list).await);
                let got = std::fs::read(root.join("out")).ok();
                let _ = std::fs::remove_file(root.join("out"));
                json!({"r": r, "got": got})
            }
            "read" => show(_pen_os_read_stdin().await),
            "limit" => show(_pen_os_read_limit_stdin((int(&o["n"]) as f64).into()).await),
            "out" => show(_pen_os_write_stdout(octets(&o["d"]).into()).await),
            "err" => show(_pen_os_write_stderr(octets(&o["d"]).into()).await),
            "exit" => { std::fs::write(case["result"].as_str().unwrap(), json!({"out": out}).to_string()).unwrap(); _pen_os_exit((o["n"].as_i64().unwrap() as f64).into()).await; json!("returned") }
            x => panic!("{x}"),
        });
    }
    json!({"out": out})
}
fn scratch() -> tempdir::Dir { tempdir::Dir::new() }
mod tempdir {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    pub struct Dir(pub std::path::PathBuf);
    impl Dir {
        pub fn new() -> Self {
            let d = std::env::current_dir().unwrap().join(format!("case-{}-{}", std::process::id(), COUNT.fetch_add(1, SeqCst)));
            std::fs::create_dir(&d).unwrap();
            Dir(d)
        }
    }
    impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
}
fn main() {
    let runtime = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    // One program of a process: its standard input and output belong to the case.
    if let Ok(case) = std::env::var("CASE") {
        let case: Value = serde_json::from_str(&std::fs::read_to_string(case).unwrap()).unwrap();
        let dir = std::env::current_dir().unwrap();
        let out = runtime.block_on(process(&case, &dir));
        std::fs::write(case["result"].as_str().unwrap(), out.to_string()).unwrap();
        runtime.shutdown_timeout(std::time::Duration::from_millis(100));
        return;
    }
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let dir = scratch();
        let out = if case["net"].is_null() { runtime.block_on(files(&case, &dir.0)) } else { net::run(&runtime, &case) };
        drop(dir);
        println!("{out}");
        std::io::stdout().flush().unwrap();
    }
}
