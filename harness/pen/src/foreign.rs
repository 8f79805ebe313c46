//! Foreign functions of the packages: the real libraries, linked into this program.
use crate::interp::*;
use crate::penrt;
use std::rc::Rc;

pub trait In: Sized {
    fn get(v: V) -> R<Self>;
}
pub trait Out {
    fn put(self, i: &mut Interp) -> R<V>;
}
impl In for ffi::Number {
    fn get(v: V) -> R<Self> {
        match v { V::Num(n) => Ok(n.into()), _ => wrong("foreign: number expected") }
    }
}
impl Out for ffi::Number {
    fn put(self, _: &mut Interp) -> R<V> { Ok(V::Num(self.into())) }
}
impl In for ffi::Boolean {
    fn get(v: V) -> R<Self> {
        match v { V::Bool(n) => Ok(n.into()), _ => wrong("foreign: boolean expected") }
    }
}
impl Out for ffi::Boolean {
    fn put(self, _: &mut Interp) -> R<V> { Ok(V::Bool(self.into())) }
}
impl In for ffi::ByteString {
    fn get(v: V) -> R<Self> {
        match v { V::Str(s) => Ok(s.to_vec().into()), _ => wrong("foreign: string expected") }
    }
}
impl Out for ffi::ByteString {
    fn put(self, _: &mut Interp) -> R<V> { Ok(V::Str(self.as_slice().into())) }
}
impl Out for ffi::None {
    fn put(self, _: &mut Interp) -> R<V> { Ok(V::None) }
}

/// Records whose contents only the foreign library knows.
#[repr(C)]
#[derive(Clone)]
pub struct Handle(ffi::Arc<ffi::Any>);
impl In for Handle {
    fn get(v: V) -> R<Self> {
        match v {
            V::Opaque(o) => match o.downcast::<Handle>() {
                Ok(h) => Ok(Rc::try_unwrap(h).unwrap_or_else(|h| (*h).clone())),
                Err(_) => wrong("foreign: other handle expected"),
            },
            _ => wrong("foreign: handle expected"),
        }
    }
}
impl Out for Handle {
    fn put(self, _: &mut Interp) -> R<V> { Ok(V::Opaque(Rc::new(self))) }
}

/// Values of Pen as they lie in `ffi::Any`.
#[ffi::any]
#[derive(Clone)]
pub struct Pen(Box<Hidden>);
#[derive(Clone)]
struct Hidden(V);
// Everything runs on one thread.
unsafe impl Send for Hidden {}
unsafe impl Sync for Hidden {}

pub fn any_type(t: mir::types::Type) -> Rc<mir::types::Type> { Rc::new(t) }
pub fn record_type(n: &str) -> mir::types::Type { mir::types::Record::new(n).into() }
pub fn variant(t: mir::types::Type, v: V) -> V { V::Var(Rc::new((Rc::new(t), v))) }

impl In for ffi::Any {
    fn get(v: V) -> R<Self> { Ok(Pen(Box::new(Hidden(v))).into()) }
}
impl Out for ffi::Any {
    fn put(self, i: &mut Interp) -> R<V> {
        use mir::types::Type;
        if let Ok(p) = <&Pen>::try_from(&self) {
            return Ok(p.0.0.clone());
        }
        if let Ok(h) = <&AnyHandle>::try_from(&self) {
            return Ok(variant(record_type(h.0.1), V::Opaque(Rc::new(Handle(h.0.0.clone())))));
        }
        if penrt::none::is(&self) { return Ok(variant(Type::None, V::None)) }
        if penrt::number::is(&self) { let n = penrt::number::take(self).unwrap(); return Ok(variant(Type::Number, V::Num(n.into()))) }
        if penrt::boolean::is(&self) { let n = penrt::boolean::take(self).unwrap(); return Ok(variant(Type::Boolean, V::Bool(n.into()))) }
        if penrt::string::is(&self) { let s = penrt::string::take(self).unwrap(); return Ok(variant(Type::ByteString, V::Str(s.as_slice().into()))) }
        if penrt::error::is(&self) {
            let e = penrt::error::take(self).unwrap();
            let source = penrt::error_source(&e).put(i)?;
            return Ok(variant(record_type("hir:error"), V::Rec(Rc::new(Record { name: "hir:error".into(), fields: vec![source] }))));
        }
        wrong("foreign: unknown any")
    }
}
impl Out for ffi::List {
    fn put(self, i: &mut Interp) -> R<V> {
        let mut l = call(i, "prelude:EmptyList", vec![])?;
        for x in penrt::to_vec(&self).into_iter().rev() {
            let x = x.put(i)?;
            l = call(i, "prelude:PrependToList", vec![constant(x), l])?;
        }
        Ok(l)
    }
}
pub fn call(i: &mut Interp, name: &str, arguments: Vec<V>) -> R<V> {
    let f = i.public(name)?;
    i.call(&f, arguments)
}

/// What `_pen_*_to_any` of the packages' Pen modules makes of a foreign record.
#[ffi::any]
#[derive(Clone)]
struct AnyHandle(Box<(ffi::Arc<ffi::Any>, &'static str)>);
#[no_mangle]
extern "C" fn _pen_regex_expression_to_any(e: Handle) -> ffi::Any {
    AnyHandle(Box::new((e.0, "regex/Expression.pen:Expression"))).into()
}

macro_rules! foreign {
    ($i:ident; $($name:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => {{
        extern "C" { $(fn $name($($a: $t),*) -> $r;)* }
        $($i.native(stringify!($name), 0, |i, arguments| {
            let mut arguments = arguments.into_iter();
            $(let $a = match arguments.next() { Some(v) => <$t as In>::get(v)?, None => return wrong("foreign: too few arguments") };)*
            if arguments.next().is_some() { return wrong("foreign: too many arguments") }
            let _ = &mut arguments;
            let r: $r = unsafe { $name($($a),*) };
            r.put(i)
        });)*
    }};
}

pub fn register(i: &mut Interp) {
    use ffi::{Any, Boolean, ByteString as S, List, Number as N};
    #[allow(unused_imports)]
    use {core_ffi as _, html_ffi as _, json_ffi as _, prelude_ffi as _, random_ffi as _, regex_ffi as _, test_ffi as _};
    foreign! { i;
        _pen_core_utf8_characters(s: S) -> List;
        _pen_core_utf8_contains(s: S, t: S) -> Boolean;
        _pen_core_utf8_find(s: S, t: S) -> N;
        _pen_core_utf8_length(s: S) -> N;
        _pen_core_utf8_starts_with(s: S, t: S) -> Boolean;
        _pen_core_utf8_ends_with(s: S, t: S) -> Boolean;
        _pen_core_utf8_replace(s: S, t: S, u: S) -> S;
        _pen_core_utf8_slice(s: S, x: N, y: N) -> S;
        _pen_core_utf8_split(s: S, t: S) -> List;
        _pen_core_utf8_to_lowercase(s: S) -> S;
        _pen_core_utf8_to_uppercase(s: S) -> S;
        _pen_core_utf8_trim(s: S) -> S;
        _pen_core_utf8_trim_end(s: S) -> S;
        _pen_core_utf8_trim_end_matches(s: S, t: S) -> S;
        _pen_core_utf8_trim_start(s: S) -> S;
        _pen_core_utf8_trim_start_matches(s: S, t: S) -> S;
        _pen_core_view_starts_with(s: S, x: N, y: N, t: S) -> Boolean;
        _pen_core_view_to_string(s: S, x: N, y: N) -> S;
        _pen_core_byte_length(s: S) -> N;
        _pen_core_byte_slice(s: S, x: N, y: N) -> S;
        _pen_core_string_starts_with(s: S, t: S) -> Boolean;
        _pen_core_string_builder_create() -> Handle;
        _pen_core_string_builder_append(b: Handle, s: S) -> Handle;
        _pen_core_string_builder_build(b: Handle, s: S) -> S;
        _pen_core_character_to_code_point(s: S) -> N;
        _pen_core_character_from_code_point(x: N) -> S;
        _pen_core_absolute(x: N) -> N;
        _pen_core_ceil(x: N) -> N;
        _pen_core_convert_number_to_string(x: N) -> S;
        _pen_core_epsilon() -> N;
        _pen_core_exponential(x: N) -> N;
        _pen_core_floor(x: N) -> N;
        _pen_core_fraction(x: N) -> N;
        _pen_core_infinity() -> N;
        _pen_core_is_nan(x: N) -> Boolean;
        _pen_core_nan() -> N;
        _pen_core_parse_number(s: S) -> Any;
        _pen_core_power(x: N, y: N) -> N;
        _pen_core_remainder(x: N, y: N) -> N;
        _pen_core_round(x: N) -> N;
        _pen_core_square_root(x: N) -> N;
        _pen_core_truncate(x: N) -> N;
        _pen_core_bit_and(x: N, y: N) -> N;
        _pen_core_bit_or(x: N, y: N) -> N;
        _pen_core_bit_xor(x: N, y: N) -> N;
        _pen_core_bit_not(x: N) -> N;
        _pen_core_bit_left_shift(x: N, y: N) -> N;
        _pen_core_bit_right_shift(x: N, y: N) -> N;
        _pen_core_bit_to_integer_64(x: N) -> N;
        _pen_core_bit_from_integer_64(x: N) -> N;
        _pen_prelude_equal_strings(s: S, t: S) -> Boolean;
        _pen_prelude_debug_number(x: N) -> S;
        _pen_prelude_combine_hashes(x: N, y: N) -> N;
        _pen_prelude_hash_number(x: N) -> N;
        _pen_prelude_hash_string(s: S) -> N;
        _pen_prelude_hash_to_index(x: N, y: N, z: N) -> N;
        _pen_json_decode_number(s: S) -> N;
        _pen_json_encode_number(x: N) -> S;
        _pen_json_encode_string(s: S) -> S;
        _pen_html_encode_attribute(s: S) -> S;
        _pen_html_encode_text(s: S) -> S;
        _pen_regex_expression_new(s: S) -> Any;
        _pen_regex_expression_matches(e: Handle, s: S) -> Boolean;
        _pen_regex_expression_match(e: Handle, s: S) -> List;
        _pen_random_number() -> N;
        _pen_test_state_new() -> Handle;
        _pen_test_state_get(s: Handle) -> Any;
        _pen_test_state_set(s: Handle, x: Any) -> ffi::None;
        _pen_test_state_freeze(s: Handle) -> ffi::None;
    }
    i.native("_pen_debug", 1, |i, arguments| match &arguments[..] {
        [V::Str(s)] => { i.debug.push(s.to_vec()); Ok(V::None) }
        _ => wrong("debug: string expected"),
    });
    // Spawned computations run at once: what they give may not depend on when they run.
    i.native("_pen_spawn", 1, |i, mut arguments| {
        let f = arguments.pop().unwrap();
        let v = i.call(&f, vec![])?;
        Ok(constant(v))
    });
    i.native("_pen_race", 1, |i, mut arguments| {
        let xss = arguments.pop().unwrap();
        let mut out = vec![];
        for l in elements(i, xss)? {
            let V::Var(l) = l else { return wrong("race: variant expected") };
            let l = match &l.1 { V::Rec(r) if !r.name.starts_with("prelude:") => r.fields[0].clone(), v => v.clone() };
            out.extend(elements(i, l)?);
        }
        list(i, out)
    });
}

pub fn list(i: &mut Interp, values: Vec<V>) -> R<V> {
    let mut l = call(i, "prelude:EmptyList", vec![])?;
    for x in values.into_iter().rev() {
        l = call(i, "prelude:PrependToList", vec![constant(x), l])?;
    }
    Ok(l)
}

/// The elements (variants) of a `prelude:List`.
pub fn elements(i: &mut Interp, mut l: V) -> R<Vec<V>> {
    let mut out = vec![];
    loop {
        let V::Var(v) = call(i, "prelude:FirstRest", vec![l])? else { return wrong("list: variant expected") };
        let V::Rec(r) = &v.1 else { return Ok(out) };
        out.push(i.call(&r.fields[0], vec![])?);
        l = r.fields[1].clone();
        if out.len() > 1_000_000 {
            return wrong("list too long");
        }
    }
}
