//! Runs histories of Sql.tla on the native part of the SQL package, with databases of SQLite in files.
use ffi::{Any, Arc, ByteString, List, Number};
use native as _;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
#[path = "../../penrt/penrt.rs"]
#[allow(dead_code)]
mod penrt;

#[repr(C)]
#[derive(Clone)]
struct Pool(Arc<Any>);
#[ffi::any]
#[derive(Clone)]
struct Held(Pool);
#[no_mangle]
extern "C" fn _pen_sql_pool_to_any(x: Pool) -> Any { Held(x).into() }
#[repr(C)]
struct Inner { min_connections: Number, max_connections: Number, connect_timeout: Number }
#[repr(C)]
#[derive(Clone)]
struct Options(Arc<Inner>);

ffi::import!(_pen_sql_pool_create, async fn(uri: ByteString, options: Options) -> Any);
ffi::import!(_pen_sql_pool_query, async fn(pool: Pool, query: ByteString, arguments: List) -> Any);
ffi::import!(_pen_sql_pool_execute, async fn(pool: Pool, query: ByteString, arguments: List) -> Any);

fn octets(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
/// Arguments: null, booleans, {"n": bits as text}, {"s": bytes} or {"l": true} for what no database takes.
fn argument(v: &Value) -> Any {
    if v.is_null() { penrt::none::any(ffi::None::default()) }
    else if let Some(b) = v.as_bool() { penrt::boolean::any(b.into()) }
    else if let Some(n) = v["n"].as_str() { penrt::number::any(f64::from_bits(u64::from_str_radix(n, 16).unwrap()).into()) }
    else if v["l"] == true { penrt::list::any(penrt::make_list(penrt::Node::Empty)) }
    else { penrt::string::any(octets(&v["s"]).into()) }
}
fn value(x: Any) -> Value {
    if penrt::none::is(&x) { Value::Null }
    else if penrt::boolean::is(&x) { json!(bool::from(penrt::boolean::take(x).unwrap())) }
    else if penrt::number::is(&x) { json!({"n": format!("{:016x}", f64::from(penrt::number::take(x).unwrap()).to_bits())}) }
    else if penrt::string::is(&x) { json!({"s": penrt::string::take(x).unwrap().as_slice()}) }
    else if penrt::list::is(&x) { json!(penrt::to_vec(&penrt::list::take(x).unwrap()).into_iter().map(value).collect::<Vec<_>>()) }
    else if penrt::error::is(&x) { if penrt::string::is(&penrt::error_source(&penrt::error::take(x).unwrap())) { json!({"error": true}) } else { json!("an error without a message") } }
    else { json!("an unknown value") }
}
fn list(v: &Value) -> List {
    v.as_array().unwrap().iter().rev().fold(penrt::make_list(penrt::Node::Empty), |l, a| penrt::cons(penrt::thunk(argument(a)), l))
}
fn text(v: &Value) -> ByteString { if let Some(s) = v.as_str() { s.into() } else { octets(v).into() } }
fn options(v: &Value) -> Options {
    let n = |k: usize| Number::from(v[k].as_f64().unwrap());
    Options(Arc::new(Inner { min_connections: n(0), max_connections: n(1), connect_timeout: n(2) }))
}
enum Got { One(Any), Many(Vec<Any>) }
async fn run(case: &Value) -> Result<Vec<Got>, Any> {
    let created = _pen_sql_pool_create(text(&case["uri"]), options(&case["options"])).await;
    let Ok(pool) = <&Held>::try_from(&created).map(|x| x.0.clone()) else { return Err(created) };
    let mut out = vec![];
    for o in case["ops"].as_array().unwrap() {
        let one = |q: &Value, a: &Value| {
            let (pool, query, list, reads) = (pool.clone(), text(q), list(a), o["reads"] == true);
            async move { if reads { _pen_sql_pool_query(pool, query, list).await } else { _pen_sql_pool_execute(pool, query, list).await } }
        };
        if let Some(all) = o["all"].as_array() {
            out.push(Got::Many(futures::future::join_all(all.iter().map(|a| one(&o["q"], a))).await));
        } else {
            out.push(Got::One(one(&o["q"], &o["a"]).await));
        }
    }
    Ok(out)
}
fn main() {
    for line in std::io::stdin().lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        // Lists are walked through outside of the executor.
        let out = match futures::executor::block_on(run(&case)) {
            Err(x) => json!({"pool": value(x)}),
            Ok(out) => json!({"pool": true, "out": out.into_iter().map(|x| match x { Got::One(x) => value(x), Got::Many(xs) => json!(xs.into_iter().map(value).collect::<Vec<_>>()) }).collect::<Vec<_>>()}),
        };
        println!("{out}");
        std::io::stdout().flush().unwrap();
    }
}
