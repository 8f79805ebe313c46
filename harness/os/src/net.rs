//! Histories of Sockets.tla, and long streams for StreamTrace.tla.
use super::*;
use std::io::Read;
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Mutex};
use std::time::Duration;
use tokio::runtime::Runtime;

native! {
    _pen_os_tcp_bind(address: ByteString) -> Any;
    _pen_os_tcp_connect(address: ByteString) -> Any;
    _pen_os_tcp_accept(listener: Object) -> Any;
    _pen_os_tcp_receive(stream: Object, limit: Number) -> Any;
    _pen_os_tcp_send(stream: Object, data: ByteString) -> Any;
    _pen_os_udp_bind(address: ByteString) -> Any;
    _pen_os_udp_connect(socket: Object, address: ByteString) -> Any;
    _pen_os_udp_receive(socket: Object) -> Any;
    _pen_os_udp_receive_from(socket: Object) -> Any;
    _pen_os_udp_send(socket: Object, data: ByteString) -> Any;
    _pen_os_udp_send_to(socket: Object, data: ByteString, address: ByteString) -> Any;
}

/// Values handed from one thread to another as a whole.
struct Handed<T>(T);
unsafe impl<T> Send for Handed<T> {}
impl<T> Handed<T> { fn get(self) -> T { self.0 } }

enum Stream { None, Plain(TcpStream), Pen(Object) }
struct World {
    place: Vec<String>,
    listeners: Vec<Option<Object>>,
    streams: Vec<[Stream; 2]>,
    plain: Vec<Option<SocketAddr>>,
    queues: Vec<(usize, Vec<usize>)>,
    sockets: Vec<Option<Object>>,
    datagrams: Vec<(usize, Vec<u8>)>,
}
fn bad(o: &Value) -> ByteString { ["".into(), "nonsense".into(), "127.0.0.1".into(), "127.0.0.1:99999".into(), ByteString::from(vec![255, 58, 56, 48])][int(&o["b"]) - 1].clone() }
fn count(x: Any) -> Value {
    if failed(&x) { message(x) } else if penrt::number::is(&x) { json!({"ok": true, "n": f64::from(penrt::number::take(x).unwrap()) as i64}) } else { json!({"ok": "no number"}) }
}
fn done(x: Any) -> Value { if failed(&x) { message(x) } else { json!({"ok": true}) } }
fn contents(id: usize, n: usize) -> Vec<u8> { (0..n).map(|i| if i < 4 { (id * 3 + i * 101) as u8 } else { (i * (id + 7) + i / 251) as u8 }).collect() }

impl World {
    fn at(&self, o: &Value) -> ByteString { self.place[int(&o["at"]) - 1].as_str().into() }
    fn received(&self, data: &[u8]) -> Value { json!(self.datagrams.iter().filter(|d| d.1 == data).map(|d| d.0).collect::<Vec<_>>()) }
    async fn step(&mut self, o: &Value) -> Value {
        let socket = || self.sockets[int(&o["u"]) - 1].clone().unwrap();
        match o["o"].as_str().unwrap() {
            "listen" => {
                let x = _pen_os_tcp_bind(self.at(o)).await;
                if failed(&x) { return message(x) }
                self.listeners.push(object(x));
                self.queues.push((int(&o["at"]), vec![]));
                json!({"ok": true})
            }
            "connect" => {
                let x = _pen_os_tcp_connect(self.at(o)).await;
                if failed(&x) { return message(x) }
                self.connected(o, Stream::Pen(object(x).unwrap()), None)
            }
            "plainConnect" => {
                let s = TcpStream::connect(&self.place[int(&o["at"]) - 1]).unwrap();
                s.set_nodelay(true).unwrap();
                let a = s.local_addr().unwrap();
                self.connected(o, Stream::Plain(s), Some(a))
            }
            "accept" => {
                let x = _pen_os_tcp_accept(self.listeners[int(&o["l"]) - 1].clone().unwrap()).await;
                if failed(&x) { return message(x) }
                let Ok(x) = <&HeldAccepted>::try_from(&x).map(|x| x.0.clone()) else { return json!({"ok": "no stream"}) };
                let address = String::from_utf8_lossy(x.0.address.as_slice()).to_string();
                let queue = &mut self.queues[int(&o["l"]) - 1].1;
                if queue.is_empty() { return json!({"ok": "a stream of no one"}) }
                let c = queue.remove(0);
                self.streams[c][1] = Stream::Pen(x.0.stream.clone());
                match address.parse::<SocketAddr>() {
                    Ok(a) => json!({"ok": true, "peer": self.plain.iter().position(|p| *p == Some(a)).map_or(0, |i| i + 1)}),
                    Err(_) => json!({"ok": true, "peer": address}),
                }
            }
            "deaf" => { self.listeners[int(&o["l"]) - 1] = None; json!({"ok": true}) }
            "send" => match &mut self.streams[int(&o["c"]) - 1][int(&o["e"]) - 1] {
                Stream::Plain(s) => { s.write_all(&octets(&o["d"])).unwrap(); json!({"ok": true, "n": octets(&o["d"]).len()}) }
                Stream::Pen(s) => count(_pen_os_tcp_send(s.clone(), octets(&o["d"]).into()).await),
                Stream::None => json!({"ok": "no stream"}),
            },
            "receive" => match &mut self.streams[int(&o["c"]) - 1][int(&o["e"]) - 1] {
                Stream::Plain(s) => {
                    let mut b = vec![0; int(&o["n"])];
                    match s.read(&mut b) { Ok(n) => json!({"ok": true, "v": &b[..n]}), Err(e) => json!({"ok": e.to_string()}) }
                }
                Stream::Pen(s) => show(_pen_os_tcp_receive(s.clone(), (int(&o["n"]) as f64).into()).await),
                Stream::None => json!({"ok": "no stream"}),
            },
            "close" => { self.streams[int(&o["c"]) - 1][int(&o["e"]) - 1] = Stream::None; json!({"ok": true}) }
            "badListen" => done(_pen_os_tcp_bind(bad(o)).await),
            "badConnect" => done(_pen_os_tcp_connect(bad(o)).await),
            "badBind" => done(_pen_os_udp_bind(bad(o)).await),
            "badAttach" => done(_pen_os_udp_connect(socket(), bad(o)).await),
            "badPost" => done(_pen_os_udp_send_to(socket(), "a".into(), bad(o)).await),
            "bind" => {
                let x = _pen_os_udp_bind(self.at(o)).await;
                if failed(&x) { return message(x) }
                self.sockets.push(object(x));
                json!({"ok": true})
            }
            "attach" => done(_pen_os_udp_connect(socket(), self.at(o)).await),
            "shut" => { self.sockets[int(&o["u"]) - 1] = None; json!({"ok": true}) }
            "post" | "postTo" => {
                let socket = socket();
                let d = contents(int(&o["id"]), int(&o["n"]));
                self.datagrams.push((int(&o["id"]), d.clone()));
                count(if o["o"] == "post" { _pen_os_udp_send(socket, d.into()).await } else { _pen_os_udp_send_to(socket, d.into(), self.at(o)).await })
            }
            "take" => {
                let x = _pen_os_udp_receive(socket()).await;
                if failed(&x) { return message(x) }
                if !penrt::string::is(&x) { return json!({"ok": "no string"}) }
                let d = penrt::string::take(x).unwrap();
                json!({"ok": true, "ids": self.received(d.as_slice()), "length": d.as_slice().len()})
            }
            "takeFrom" => {
                let x = _pen_os_udp_receive_from(socket()).await;
                if failed(&x) { return message(x) }
                let Ok(x) = <&HeldDatagram>::try_from(&x).map(|x| x.0.clone()) else { return json!({"ok": "no datagram"}) };
                let d = x.0.data.as_slice();
                let from = self.place.iter().position(|p| p.as_bytes() == x.0.address.as_slice()).map_or(0, |i| i + 1);
                json!({"ok": true, "ids": self.received(d), "length": d.len(), "from": from})
            }
            x => panic!("{x}"),
        }
    }
    fn connected(&mut self, o: &Value, s: Stream, a: Option<SocketAddr>) -> Value {
        self.streams.push([s, Stream::None]);
        self.plain.push(a);
        let at = int(&o["at"]);
        let c = self.streams.len() - 1;
        for (l, (place, queue)) in self.queues.iter_mut().enumerate() { if *place == at && self.listeners[l].is_some() { queue.push(c) } }
        json!({"ok": true})
    }
}

pub fn run(runtime: &Runtime, case: &Value) -> Value {
    let place = case["place"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>();
    if case["net"] == "long" { return long(runtime, case, &place[0]) }
    let mut world = World { place, listeners: vec![], streams: vec![], plain: vec![], queues: vec![], sockets: vec![], datagrams: vec![] };
    let mut out = vec![];
    for o in case["ops"].as_array().unwrap() {
        // Every step has a thread, for what waits for ever to be seen.
        let (tx, rx) = mpsc::channel();
        let handle = runtime.handle().clone();
        let p = o.clone();
        let w = Handed(world);
        std::thread::spawn(move || {
            let mut w = w.get();
            let r = handle.block_on(w.step(&p));
            let _ = tx.send(Handed((w, r)));
        });
        match rx.recv_timeout(Duration::from_secs(4)) {
            Ok(x) => { let (w, r) = x.get(); world = w; out.push(json!({"o": o, "r": r})) }
            Err(_) => { out.push(json!({"o": o, "r": {"ok": "it waits"}})); break }
        }
    }
    json!({"out": out})
}

fn byte(c: usize, i: usize) -> u8 { ((i % 65521) * (c + 3) + i / 65521 * 17 + i % 7) as u8 }
fn long(runtime: &Runtime, case: &Value, place: &str) -> Value {
    let log = std::sync::Arc::new(Mutex::new(vec![]));
    let listener = runtime.block_on(_pen_os_tcp_bind(place.into()));
    let Some(listener) = object(listener) else { return json!({"wrong": "no listener"}) };
    let streams = case["streams"].as_array().unwrap().clone();
    let (tx, rx) = mpsc::channel();
    let left = std::sync::Arc::new(AtomicUsize::new(streams.len() * 2));
    for (c, s) in streams.iter().enumerate() {
        let a = runtime.block_on(_pen_os_tcp_connect(place.into()));
        let b = runtime.block_on(_pen_os_tcp_accept(listener.clone()));
        let Some(a) = object(a) else { return json!({"wrong": "no stream"}) };
        let Ok(b) = <&HeldAccepted>::try_from(&b).map(|x| x.0 .0.stream.clone()) else { return json!({"wrong": "no accepted stream"}) };
        let (from, to) = if s["back"] == true { (b, a) } else { (a, b) };
        let sizes: Vec<usize> = s["sizes"].as_array().unwrap().iter().map(int).collect();
        let limits: Vec<usize> = s["limits"].as_array().unwrap().iter().map(int).collect();
        let (from, to) = (Handed(from), Handed(to));
        for end in 0..2 {
            let (log, tx, left, handle, sizes, limits) = (log.clone(), tx.clone(), left.clone(), runtime.handle().clone(), sizes.clone(), limits.clone());
            let mine = if end == 0 { Handed(unsafe { std::ptr::read(&from.0) }) } else { Handed(unsafe { std::ptr::read(&to.0) }) };
            std::thread::spawn(move || {
                let stream = mine.get();
                let note = |v: Value| log.lock().unwrap().push((c, v));
                if end == 0 {
                    let mut at = 0;
                    'all: for n in sizes {
                        let end = at + n;
                        while at < end {
                            let data: Vec<u8> = (at..end).map(|i| byte(c, i)).collect();
                            note(json!({"e": "begin", "n": data.len()}));
                            let r = count(handle.block_on(_pen_os_tcp_send(stream.clone(), data.into())));
                            let Some(m) = r["n"].as_u64() else { note(json!({"e": "wrong", "r": r})); break 'all };
                            note(json!({"e": "sent", "n": m}));
                            at += m as usize;
                        }
                    }
                } else {
                    let mut at = 0;
                    // Nothing is read until what is written fills all buffers.
                    if sizes.iter().any(|n| *n > 4_000_000) { std::thread::sleep(Duration::from_millis(500)) }
                    for i in 0.. {
                        let limit = limits[i % limits.len()];
                        let r = show(handle.block_on(_pen_os_tcp_receive(stream.clone(), (limit as f64).into())));
                        let Some(v) = r["v"].as_array() else { note(json!({"e": "wrong", "r": r})); break };
                        if v.is_empty() { note(json!({"e": "end"})); break }
                        let right = v.iter().enumerate().all(|(i, x)| *x == json!(byte(c, at + i)));
                        note(json!({"e": "got", "n": v.len(), "right": right, "limit": limit}));
                        at += v.len();
                    }
                }
                drop(stream);
                if left.fetch_sub(1, SeqCst) == 1 { let _ = tx.send(()); }
            });
        }
        std::mem::forget(from);
        std::mem::forget(to);
    }
    let wrong = if rx.recv_timeout(Duration::from_secs(30)).is_err() { Some("it waits") } else { None };
    let log = log.lock().unwrap();
    let traces: Vec<Vec<Value>> = (0..streams.len()).map(|c| log.iter().filter(|x| x.0 == c).map(|x| x.1.clone()).collect()).collect();
    json!({"traces": traces, "wrong": wrong})
}
