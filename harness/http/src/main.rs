//! Runs exchanges of Http.tla on the native parts of the HTTP package: its client and its server with each other,
//! and each of them with a counterpart which reads and writes the messages as bytes.
use ffi::cps::{AsyncStack, ContinuationFunction};
use ffi::{Any, Arc, ByteString, Closure, List, Number};
use native as _;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{mpsc, Arc as StdArc, Mutex};
use std::time::Duration;
use tokio::runtime::{Builder, Runtime};
#[path = "../../penrt/penrt.rs"]
#[allow(dead_code)]
mod penrt;

// ---- stand-ins for the Pen part of the package
type Headers = BTreeMap<Vec<u8>, Vec<u8>>;
#[ffi::any]
#[derive(Clone)]
struct Map(StdArc<Headers>);
#[repr(C)]
#[derive(Clone)]
struct HeaderMap(Arc<Any>);
impl HeaderMap {
    fn new(m: Headers) -> Self { HeaderMap(Arc::new(Map(StdArc::new(m)).into())) }
    fn inner(&self) -> StdArc<Headers> { <&Map>::try_from(&*self.0).unwrap().0.clone() }
}
#[no_mangle]
extern "C" fn _pen_http_header_map_create() -> HeaderMap { HeaderMap::new(Headers::new()) }
#[no_mangle]
extern "C" fn _pen_http_header_map_get(map: HeaderMap, key: ByteString) -> ByteString { map.inner().get(key.as_slice()).cloned().unwrap_or_default().into() }
#[no_mangle]
extern "C" fn _pen_http_header_map_set(map: HeaderMap, key: ByteString, value: ByteString) -> HeaderMap {
    let mut m = (*map.inner()).clone();
    m.insert(key.as_slice().to_vec(), value.as_slice().to_vec());
    HeaderMap::new(m)
}
#[no_mangle]
extern "C" fn _pen_http_header_map_keys(map: HeaderMap) -> List {
    map.inner().keys().rev().fold(penrt::make_list(penrt::Node::Empty), |l, k| penrt::cons(penrt::thunk(penrt::string::any(k.clone().into())), l))
}
#[repr(C)]
struct Inner { status: Number, headers: HeaderMap, body: ByteString }
#[repr(C)]
#[derive(Clone)]
struct Response(Arc<Inner>);
#[ffi::any]
#[derive(Clone)]
struct HeldResponse(Response);
#[no_mangle]
extern "C" fn _pen_http_response_to_any(x: Response) -> Any { HeldResponse(x).into() }

ffi::import!(_pen_http_client_send, async fn(method: ByteString, uri: ByteString, headers: HeaderMap, body: ByteString) -> Any);
ffi::import!(_pen_http_server_serve, async fn(address: ByteString, callback: Closure) -> Any);

// ---- exchanges
fn octets(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn pairs(v: &Value) -> Vec<(Vec<u8>, Vec<u8>)> { v.as_array().unwrap().iter().map(|p| (octets(&p[0]), octets(&p[1]))).collect() }
fn shown(h: &[(Vec<u8>, Vec<u8>)]) -> Value { json!(h) }
fn listed(m: &HeaderMap) -> Value { shown(&m.inner().iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>()) }
/// Exchanges are told apart by a header, which is taken off again; headers are shown as pairs.
const ID: &[u8] = b"x-id";
fn identify(h: Vec<(Vec<u8>, Vec<u8>)>) -> (i64, Vec<(Vec<u8>, Vec<u8>)>) {
    let id = h.iter().filter(|p| p.0.eq_ignore_ascii_case(ID)).filter_map(|p| String::from_utf8_lossy(&p.1).parse().ok()).next().unwrap_or(0);
    (id, h.into_iter().filter(|p| !p.0.eq_ignore_ascii_case(ID)).collect())
}
#[derive(Clone)]
struct World { log: StdArc<Mutex<Vec<Value>>>, exchanges: StdArc<Vec<Value>>, place: String, raw: String }
impl World {
    fn log(&self, v: Value) { self.log.lock().unwrap().push(v) }
    fn answer(&self, i: i64) -> Value { self.exchanges.get((i - 1) as usize).map_or(json!({"status": 200, "headers": [], "body": []}), |x| x["a"].clone()) }
}
extern "C" fn handler(stack: &mut AsyncStack<Response>, continue_: ContinuationFunction<Response, Response>, closure: Closure<World>, method: ByteString, uri: ByteString, headers: HeaderMap, body: ByteString) {
    let world = unsafe { (*closure.payload()).clone() };
    drop(closure);
    let (i, hs) = identify(headers.inner().iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    world.log(json!({"e": "seen", "i": i, "x": {"method": method.as_slice(), "target": uri.as_slice(), "headers": shown(&hs), "body": body.as_slice()}}));
    let a = world.answer(i);
    let r = Response(Arc::new(Inner { status: a["status"].as_f64().unwrap().into(), headers: HeaderMap::new(pairs(&a["headers"]).into_iter().collect()), body: octets(&a["body"]).into() }));
    continue_(stack, r);
}
fn result(x: Any) -> Value {
    if penrt::error::is(&x) { return json!({"ok": penrt::string::is(&penrt::error_source(&penrt::error::take(x).unwrap())).then_some(false).map_or(json!("an error without a message"), Value::from)}) }
    match <&HeldResponse>::try_from(&x) {
        Ok(r) => json!({"ok": true, "status": f64::from(r.0 .0.status) as i64, "headers": listed(&r.0 .0.headers), "body": r.0 .0.body.as_slice()}),
        Err(_) => json!({"ok": "no response"}),
    }
}
async fn send(w: &World, i: i64) -> Value {
    let x = &w.exchanges[(i - 1) as usize];
    let q = &x["q"];
    let at = if x["w"] == "client" { &w.raw } else { &w.place };
    let uri: Vec<u8> = match q["place"].as_str().unwrap() {
        "server" => [format!("http://{at}").into_bytes(), octets(&q["target"])].concat(),
        "nowhere" => [format!("http://{}:9", at.split(':').next().unwrap()).into_bytes(), octets(&q["target"])].concat(),
        _ => match x["bad"].as_u64().unwrap() {
            1 => vec![],
            2 => b"nonsense".to_vec(),
            3 => b"/relative".to_vec(),
            4 => format!("ftp://{at}/").into_bytes(),
            5 => format!("https://{at}/").into_bytes(),
            6 => format!("http://{at}/a b").into_bytes(),
            7 => b"http:///x".to_vec(),
            _ => [format!("http://{at}/").into_bytes(), vec![255, 254]].concat(),
        },
    };
    let mut headers: Headers = pairs(&q["headers"]).into_iter().collect();
    headers.insert(ID.to_vec(), i.to_string().into_bytes());
    result(_pen_http_client_send(octets(&q["method"]).into(), uri.into(), HeaderMap::new(headers), octets(&q["body"]).into()).await)
}
/// A message which was read: the words of its first line, its headers and its body.
type Message = (Vec<Vec<u8>>, Vec<(Vec<u8>, Vec<u8>)>, Vec<u8>);
fn line(r: &mut impl BufRead) -> Option<Vec<u8>> {
    let mut l = vec![];
    r.read_until(b'\n', &mut l).ok()?;
    if l.pop()? != b'\n' { return None }
    if l.last() == Some(&b'\r') { l.pop(); }
    Some(l)
}
fn message(r: &mut impl BufRead, bodiless: bool, request: bool) -> Option<Message> {
    let first: Vec<Vec<u8>> = line(r)?.splitn(3, |b| *b == b' ').map(|w| w.to_vec()).collect();
    let mut headers = vec![];
    loop {
        let l = line(r)?;
        if l.is_empty() { break }
        let colon = l.iter().position(|b| *b == b':')?;
        let value = &l[colon + 1..];
        let a = value.iter().position(|b| *b != b' ' && *b != b'\t').unwrap_or(value.len());
        let b = value.iter().rposition(|b| *b != b' ' && *b != b'\t').map_or(a, |i| i + 1);
        headers.push((l[..colon].to_vec(), value[a..b].to_vec()));
    }
    let header = |n: &str| headers.iter().find(|h| h.0.eq_ignore_ascii_case(n.as_bytes())).map(|h| String::from_utf8_lossy(&h.1).to_lowercase());
    let mut body = vec![];
    if bodiless {
    } else if header("transfer-encoding").is_some_and(|x| x == "chunked") {
        loop {
            let n = usize::from_str_radix(String::from_utf8_lossy(&line(r)?).split(';').next()?.trim(), 16).ok()?;
            let mut c = vec![0; n];
            r.read_exact(&mut c).ok()?;
            body.extend(c);
            line(r)?;
            if n == 0 { break }
        }
    } else if let Some(n) = header("content-length") {
        body = vec![0; n.parse().ok()?];
        r.read_exact(&mut body).ok()?;
    } else if !request {
        r.read_to_end(&mut body).ok()?;
    }
    Some((first, headers, body))
}
/// A message as bytes: with its length, in chunks, or up to the end of the connection.
fn bytes(first: String, headers: &[(Vec<u8>, Vec<u8>)], body: &[u8], frame: u64, bodiless: bool) -> (Vec<u8>, bool) {
    let mut out = first.into_bytes();
    for (k, v) in headers { out.extend(k); out.extend(b": "); out.extend(v); out.extend(b"\r\n") }
    match frame {
        _ if bodiless => { out.extend(b"\r\n"); (out, false) }
        1 | 2 => { out.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes()); out.extend(body); (out, false) }
        3 => {
            out.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in body.chunks(1 + body.len() / 3) { out.extend(format!("{:x}\r\n", c.len()).bytes()); out.extend(c); out.extend(b"\r\n") }
            out.extend(b"0\r\n\r\n");
            (out, false)
        }
        _ => { out.extend(b"Connection: close\r\n\r\n"); out.extend(body); (out, true) }
    }
}
/// Writes in pieces, so that messages come in several parts.
fn put(s: &mut TcpStream, data: &[u8], pieces: usize) -> bool {
    for c in data.chunks(1 + data.len() / pieces) { if s.write_all(c).is_err() { return false } if pieces > 1 { std::thread::sleep(Duration::from_micros(300)) } }
    true
}
fn raw_server(w: World, listener: TcpListener) {
    for s in listener.incoming() {
        let (Ok(mut s), w) = (s, w.clone()) else { return };
        std::thread::spawn(move || {
            s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
            let mut r = BufReader::new(s.try_clone().unwrap());
            while let Some((first, headers, body)) = message(&mut r, false, true) {
                let (i, hs) = identify(headers);
                w.log(json!({"e": "seen", "i": i, "x": {"method": first[0], "target": first.get(1), "headers": shown(&hs), "body": body}}));
                let a = w.answer(i);
                let status = a["status"].as_u64().unwrap();
                let frame = w.exchanges.get((i - 1) as usize).map_or(1, |x| x["frame"].as_u64().unwrap());
                let (out, close) = bytes(format!("HTTP/1.1 {status} OK\r\n"), &pairs(&a["headers"]), &octets(&a["body"]), frame, first[0] == b"HEAD" || status == 204 || status == 304);
                if !put(&mut s, &out, (i as usize) % 3 + 1) || close { return }
            }
        });
    }
}
fn raw_client(w: &World, i: i64) -> Value {
    let x = &w.exchanges[(i - 1) as usize];
    let q = &x["q"];
    let Ok(mut s) = TcpStream::connect(&w.place) else { return json!({"ok": false}) };
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let mut headers = pairs(&q["headers"]);
    headers.insert(0, (ID.to_vec(), i.to_string().into_bytes()));
    let (m, t) = (octets(&q["method"]), octets(&q["target"]));
    let first = format!("{} {} HTTP/1.1\r\nHost: {}\r\n", String::from_utf8(m.clone()).unwrap(), String::from_utf8(t).unwrap(), w.place);
    let body = octets(&q["body"]);
    let frame = x["frame"].as_u64().unwrap();
    let (out, _) = bytes(first, &headers, &body, if frame == 4 { 1 } else { frame }, frame == 4 && body.is_empty());
    put(&mut s, &out, (i as usize + 1) % 4 + 1);
    let status = |f: &[Vec<u8>]| f.get(1).and_then(|x| String::from_utf8_lossy(x).parse::<i64>().ok()).unwrap_or(-1);
    let a = &x["a"];
    match message(&mut BufReader::new(s), m == b"HEAD" || a["status"] == 204 || a["status"] == 304, false) {
        Some((first, headers, body)) => json!({"ok": true, "status": status(&first), "headers": shown(&headers), "body": body}),
        None => json!({"ok": false}),
    }
}
struct Handed<T>(T);
unsafe impl<T> Send for Handed<T> {}
fn run(servers: &Runtime, clients: &Runtime, case: &Value) -> Value {
    let ip = case["ip"].as_str().unwrap();
    let w = World { log: Default::default(), exchanges: StdArc::new(case["exchanges"].as_array().unwrap().clone()), place: format!("{ip}:4100"), raw: format!("{ip}:4200") };
    let listener = TcpListener::bind(&w.raw).unwrap();
    let raw = w.clone();
    std::thread::spawn(move || raw_server(raw, listener));
    // Handlers run in one thread: sharing them among threads is not what this is about.
    let (tx, rx) = mpsc::channel();
    let v = w.clone();
    let serving = servers.spawn(async move {
        let x = Handed(_pen_http_server_serve(v.place.clone().into_bytes().into(), Closure::new(handler as *const u8, v.clone()).into_opaque()));
        let r = { let x = x; x.0.await };
        let _ = tx.send(result(r));
    });
    for _ in 0..2000 { if TcpStream::connect(&w.place).is_ok() { break } std::thread::sleep(Duration::from_millis(1)) }
    let early = rx.try_recv().ok();
    let done = StdArc::new(Mutex::new(0));
    for batch in case["batches"].as_array().unwrap() {
        let threads: Vec<_> = batch.as_array().unwrap().iter().map(|i| {
            let (i, w, handle, done) = (i.as_i64().unwrap(), w.clone(), clients.handle().clone(), done.clone());
            std::thread::spawn(move || {
                w.log(json!({"e": "begin", "i": i}));
                let x = if w.exchanges[(i - 1) as usize]["w"] == "server" { raw_client(&w, i) } else {
                    handle.block_on(async { tokio::time::timeout(Duration::from_secs(10), send(&w, i)).await.unwrap_or(json!({"ok": "it waits"})) })
                };
                w.log(json!({"e": "got", "i": i, "x": x}));
                *done.lock().unwrap() += 1;
            })
        }).collect();
        for t in threads { let _ = t.join(); }
    }
    // Servers at addresses which are none, or taken.
    let refused: Vec<Value> = ["nonsense", "", "127.0.0.1", "127.0.0.1:99999", &w.raw].iter().map(|a| {
        let (a, v) = (a.to_string(), w.clone());
        clients.block_on(async move {
            let x = _pen_http_server_serve(a.as_str().into(), Closure::new(handler as *const u8, v).into_opaque());
            match tokio::time::timeout(Duration::from_millis(500), x).await { Ok(x) => result(x), Err(_) => json!({"ok": "it serves"}) }
        })
    }).collect();
    let early = early.or(rx.try_recv().ok());
    serving.abort();
    let events = w.log.lock().unwrap().clone();
    json!({"events": events, "refused": refused, "early": early})
}
fn main() {
    let servers = Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let clients = Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        println!("{}", run(&servers, &clients, &case));
        std::io::stdout().flush().unwrap();
    }
}
