//! Stand-ins for what compiled Pen code provides to foreign libraries (packages/ffi/*.pen).
//! Included as a module by harness crates, which call the foreign-function library `ffi`.
#![allow(dead_code)]
use ffi::cps::{AsyncStack, ContinuationFunction};
use ffi::{Any, Arc, Boolean, ByteString, Closure, Error, List, Number, TypeInformation};
use std::mem::{forget, transmute, transmute_copy};
use std::sync::Mutex;

macro_rules! information {
    ($module:ident, $type:ty) => {
        pub mod $module {
            use super::*;
            extern "C" fn clone(x: u64) -> u64 { let v = get(x); let c = v.clone(); forget(v); put(c) }
            extern "C" fn drop_(x: u64) { drop(get(x)) }
            extern "C" fn synchronize(_: u64) {}
            pub fn put(v: $type) -> u64 { let mut p = 0u64; unsafe { std::ptr::write(&mut p as *mut u64 as *mut $type, v) }; p }
            pub fn get(x: u64) -> $type { unsafe { std::ptr::read(&x as *const u64 as *const $type) } }
            pub static INFO: TypeInformation = TypeInformation::new(clone, drop_, synchronize);
            pub fn any(v: $type) -> Any { Any::new(&INFO, put(v)) }
            pub fn is(a: &Any) -> bool { std::ptr::eq(a.type_information(), &INFO) }
            pub fn take(a: Any) -> Option<$type> { if is(&a) { let v = get(*a.payload()); forget(a); Some(v) } else { None } }
        }
    };
}
information!(number, Number);
information!(boolean, Boolean);
information!(none, ffi::None);
information!(string, ByteString);
information!(error, Error);
information!(list, List);

pub enum Node { Empty, Cons(Closure, List), Lazy(Mutex<Result<List, Option<Closure>>>) }
#[repr(C)]
struct Inner { node: Closure }
pub fn make_list(node: Node) -> List {
    unsafe { transmute::<Arc<Inner>, List>(Arc::new(Inner { node: Closure::new(std::ptr::null(), node).into_opaque() })) }
}
pub fn with_node<T>(l: &List, f: impl FnOnce(&Node) -> T) -> T {
    let arc: Arc<Inner> = unsafe { transmute_copy(l) };
    let r = f(unsafe { &*(arc.node.payload() as *const Node) });
    forget(arc);
    r
}
extern "C" fn constant(stack: &mut AsyncStack, continue_: ContinuationFunction<Any>, closure: Closure<Any>) {
    let v = unsafe { (*closure.payload()).clone() };
    drop(closure);
    continue_(stack, v)
}
pub fn thunk(x: Any) -> Closure { Closure::new(constant as *const u8, x).into_opaque() }
pub fn cons(first: Closure, rest: List) -> List { make_list(Node::Cons(first, rest)) }

/// What a Pen list comprehension over a Rust list yields when everything is evaluated at once.
pub fn first_rest_now(l: &List) -> Option<(Closure, List)> {
    enum S { E, C(Closure, List), L }
    match with_node(l, |n| match n { Node::Empty => S::E, Node::Cons(f, r) => S::C(f.clone(), r.clone()), Node::Lazy(_) => S::L }) {
        S::E => None,
        S::C(f, r) => Some((f, r)),
        S::L => { let inner = futures::executor::block_on(force(l.clone())); first_rest_now(&inner) }
    }
}
pub async fn force(l: List) -> List {
    let todo = with_node(&l, |n| match n { Node::Lazy(m) => match &mut *m.lock().unwrap() { Ok(l) => Ok(l.clone()), Err(c) => Err(c.take().expect("lazy list forced twice at once")) }, _ => Ok(l.clone()) });
    match todo {
        Ok(l) => l,
        Err(c) => {
            let v = ffi::future::from_closure::<(), List>(c).await;
            with_node(&l, |n| if let Node::Lazy(m) = n { *m.lock().unwrap() = Ok(v.clone()) });
            v
        }
    }
}
pub fn eval_now(c: Closure) -> Any { futures::executor::block_on(ffi::future::from_closure::<(), Any>(c)) }
pub fn to_vec(l: &List) -> Vec<Any> {
    let mut out = vec![];
    let mut l = l.clone();
    while let Some((f, r)) = first_rest_now(&l) { out.push(eval_now(f)); l = r }
    out
}
pub fn error_source(e: &Error) -> Any { let arc: Arc<Any> = unsafe { transmute_copy(e) }; let a = (*arc).clone(); forget(arc); a }

#[no_mangle] extern "C" fn pen_ffi_list_create() -> List { make_list(Node::Empty) }
#[no_mangle] extern "C" fn pen_ffi_list_prepend(x: Any, xs: List) -> List { cons(thunk(x), xs) }
#[no_mangle] extern "C" fn pen_ffi_list_lazy(xs: Closure) -> List { make_list(Node::Lazy(Mutex::new(Err(Some(xs))))) }
#[repr(C)]
pub struct FirstRest { ok: Boolean, first: Closure, rest: List }
mod first_rest {
    use super::*;
    #[ffi::bindgen]
    pub async fn pen_ffi_list_first_rest(list: List) -> Arc<FirstRest> {
        let mut list = list;
        loop {
            if with_node(&list, |n| matches!(n, Node::Lazy(_))) { list = force(list).await } else { break }
        }
        Arc::new(match first_rest_now(&list) {
            Some((first, rest)) => FirstRest { ok: true.into(), first, rest },
            None => FirstRest { ok: false.into(), first: thunk(none::any(ffi::None::default())), rest: make_list(Node::Empty) },
        })
    }
}
macro_rules! conversions { ($(($m:ident, $t:ty, $is:ident, $to:ident, $from:ident, $default:expr)),*) => { $(
    #[no_mangle] extern "C" fn $is(x: Any) -> Boolean { $m::is(&x).into() }
    #[no_mangle] extern "C" fn $to(x: Any) -> $t { $m::take(x).unwrap_or_else(|| $default) }
    #[no_mangle] extern "C" fn $from(x: $t) -> Any { $m::any(x) }
)* } }
conversions!((number, Number, pen_ffi_any_is_number, pen_ffi_any_to_number, pen_ffi_number_to_any, 0.0.into()),
    (boolean, Boolean, pen_ffi_any_is_boolean, pen_ffi_any_to_boolean, pen_ffi_boolean_to_any, false.into()),
    (string, ByteString, pen_ffi_any_is_string, pen_ffi_any_to_string, pen_ffi_string_to_any, "".into()),
    (error, Error, pen_ffi_any_is_error, pen_ffi_any_to_error, pen_ffi_error_to_any, Error::new(string::any("non-error type detected".into()))),
    (list, List, pen_ffi_any_is_list, pen_ffi_any_to_list, pen_ffi_list_to_any, make_list(Node::Empty)));
#[no_mangle] extern "C" fn pen_ffi_any_is_none(x: Any) -> Boolean { none::is(&x).into() }
#[no_mangle] extern "C" fn pen_ffi_none_to_any() -> Any { none::any(ffi::None::default()) }
