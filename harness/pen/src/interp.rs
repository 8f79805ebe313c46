//! An interpreter of MIR as it is handed to code generation. Variables are counted as the
//! reference-count pass intends: every binding owns one count, reads take one, clone operations
//! add one and drop operations take one; none may be left when a function returns.
use fnv::FnvHashMap;
use mir::ir::{ArithmeticOperator, ComparisonOperator, Expression};
use mir::types::Type;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    None,
    Bool(bool),
    Num(f64),
    Str(Rc<[u8]>),
    Rec(Rc<Record>),
    Fun(Rc<Closure>),
    Var(Rc<(Rc<Type>, V)>),
    /// What foreign libraries made (kept as the foreign value itself).
    Opaque(Rc<dyn std::any::Any>),
}

#[derive(Clone)]
pub struct Record {
    pub name: Rc<str>,
    pub fields: Vec<V>,
}

pub enum Body {
    Code(Rc<Code>),
    Native(Box<dyn Fn(&mut Interp, Vec<V>) -> R<V>>),
}

pub struct Closure {
    pub body: Body,
    pub environment: Vec<V>,
    pub thunk: RefCell<Thunk>,
}

pub enum Thunk {
    Fresh,
    Running,
    Done(V),
}

pub enum Trap {
    Wrong(String),
    Budget,
    Return(V),
}
pub type R<T> = Result<T, Box<Trap>>;

pub fn wrong<T>(s: impl Into<String>) -> R<T> {
    Err(Box::new(Trap::Wrong(s.into())))
}

pub struct Code {
    pub name: String,
    arity: usize,
    environment: Vec<(usize, usize)>,
    own: Option<usize>,
    slots: usize,
    names: Vec<String>,
    thunk: bool,
    body: E,
    unit: usize,
}

struct Alternative {
    types: Vec<Rc<Type>>,
    slot: usize,
    body: E,
}

enum E {
    None,
    Bool(bool),
    Num(f64),
    Str(Rc<[u8]>),
    Local(usize),
    Global(usize),
    Arithmetic(ArithmeticOperator, Box<(E, E)>),
    Comparison(ComparisonOperator, Box<(E, E)>),
    Call(Box<E>, Vec<E>),
    Case(Box<E>, Vec<Alternative>, Option<Box<(usize, E)>>),
    Clone(Vec<usize>, Box<E>),
    Drop(Vec<usize>, Box<E>),
    If(Box<(E, E, E)>),
    Let(usize, Box<(E, E)>),
    LetRecursive(usize, Rc<Code>, Vec<usize>, Box<E>),
    Record(Rc<str>, Vec<E>),
    Field(Rc<str>, usize, Box<E>),
    Update(Rc<str>, Box<E>, Vec<(usize, E)>),
    Concatenate(Vec<E>),
    Try(Box<E>, usize, Rc<Type>, Box<E>),
    Information(Box<E>),
    Variant(Rc<Type>, Box<E>),
}

pub enum Global {
    Unresolved(String),
    Value(V),
}

pub struct Interp {
    globals: Vec<Global>,
    public: FnvHashMap<String, usize>,
    foreign: FnvHashMap<String, usize>,
    natives: Vec<(String, usize)>,
    information: FnvHashMap<Type, usize>,
    fallbacks: Vec<usize>,
    pub budget: u64,
    pub debug: Vec<Vec<u8>>,
    pub entries: FnvHashMap<(String, String), usize>,
    pub clones: u64,
    pub drops: u64,
    pub moved: u64,
    pub in_place: u64,
    pub depth: usize,
}

struct Scope<'a> {
    globals: &'a FnvHashMap<String, usize>,
    locals: FnvHashMap<String, usize>,
    names: Vec<String>,
    unit: usize,
}

impl Scope<'_> {
    fn bind(&mut self, name: &str) -> (usize, Option<usize>) {
        let slot = self.names.len();
        self.names.push(name.into());
        let old = self.locals.insert(name.into(), slot);
        (slot, old)
    }
    fn unbind(&mut self, name: &str, old: Option<usize>) {
        match old {
            Some(o) => self.locals.insert(name.into(), o),
            None => self.locals.remove(name),
        };
    }
    fn names_of<'b>(&self, names: impl Iterator<Item = &'b String>) -> Vec<usize> {
        let mut v: Vec<usize> = names.filter_map(|n| self.locals.get(n).copied()).collect();
        v.sort();
        v
    }

    fn with(&mut self, name: &str, e: &Expression) -> (usize, E) {
        let (slot, old) = self.bind(name);
        let e = self.e(e);
        self.unbind(name, old);
        (slot, e)
    }

    fn b(&mut self, e: &Expression) -> Box<E> {
        Box::new(self.e(e))
    }

    fn e(&mut self, e: &Expression) -> E {
        match e {
            Expression::None => E::None,
            Expression::Boolean(b) => E::Bool(*b),
            Expression::Number(n) => E::Num(*n),
            Expression::ByteString(s) => E::Str(s.value().into()),
            Expression::Variable(v) => match self.locals.get(v.name()) {
                Some(&s) => E::Local(s),
                None => E::Global(*self.globals.get(v.name()).unwrap_or_else(|| panic!("unknown variable {}", v.name()))),
            },
            Expression::ArithmeticOperation(o) => E::Arithmetic(o.operator(), Box::new((self.e(o.lhs()), self.e(o.rhs())))),
            Expression::ComparisonOperation(o) => E::Comparison(o.operator(), Box::new((self.e(o.lhs()), self.e(o.rhs())))),
            Expression::Call(c) => E::Call(self.b(c.function()), c.arguments().iter().map(|a| self.e(a)).collect()),
            Expression::Case(c) => {
                let argument = self.b(c.argument());
                E::Case(
                    argument,
                    c.alternatives()
                        .iter()
                        .map(|a| {
                            let (slot, body) = self.with(a.name(), a.expression());
                            Alternative { types: a.types().iter().cloned().map(Rc::new).collect(), slot, body }
                        })
                        .collect(),
                    c.default_alternative().map(|a| Box::new(self.with(a.name(), a.expression()))),
                )
            }
            Expression::CloneVariables(c) => E::Clone(self.names_of(c.variables().keys()), self.b(c.expression())),
            Expression::DropVariables(c) => E::Drop(self.names_of(c.variables().keys()), self.b(c.expression())),
            Expression::If(i) => E::If(Box::new((self.e(i.condition()), self.e(i.then()), self.e(i.else_())))),
            Expression::Let(l) => {
                let bound = self.e(l.bound_expression());
                let (slot, e) = self.with(l.name(), l.expression());
                E::Let(slot, Box::new((bound, e)))
            }
            Expression::LetRecursive(l) => {
                let d = l.definition();
                let environment = d.environment().iter().map(|a| *self.locals.get(a.name()).unwrap_or_else(|| panic!("environment {}", a.name()))).collect();
                let code = Rc::new(code(d, self.globals, self.unit, false));
                let (slot, e) = self.with(d.name(), l.expression());
                E::LetRecursive(slot, code, environment, Box::new(e))
            }
            Expression::Synchronize(s) => self.e(s.expression()),
            Expression::Record(r) => E::Record(r.type_().name().into(), r.fields().iter().map(|f| self.e(f)).collect()),
            Expression::RecordField(f) => E::Field(f.type_().name().into(), f.index(), self.b(f.record())),
            Expression::RecordUpdate(u) => {
                let r = self.b(u.record());
                E::Update(u.type_().name().into(), r, u.fields().iter().map(|f| (f.index(), self.e(f.expression()))).collect())
            }
            Expression::StringConcatenation(c) => E::Concatenate(c.operands().iter().map(|o| self.e(o)).collect()),
            Expression::TryOperation(t) => {
                let operand = self.b(t.operand());
                let (slot, then) = self.with(t.name(), t.then());
                E::Try(operand, slot, Rc::new(t.type_().clone()), Box::new(then))
            }
            Expression::TypeInformationFunction(f) => E::Information(self.b(f.variant())),
            Expression::Variant(v) => E::Variant(Rc::new(v.type_().clone()), self.b(v.payload())),
        }
    }
}

fn code(d: &mir::ir::FunctionDefinition, globals: &FnvHashMap<String, usize>, unit: usize, global: bool) -> Code {
    let mut s = Scope { globals, locals: Default::default(), names: vec![], unit };
    for a in d.arguments() {
        s.bind(a.name());
    }
    let environment = d.environment().iter().enumerate().map(|(i, a)| (i, s.bind(a.name()).0)).collect();
    let own = if global { None } else { Some(s.bind(d.name()).0) };
    // An argument shadows what the environment or the function itself would bind.
    for (i, a) in d.arguments().iter().enumerate() {
        s.locals.insert(a.name().into(), i);
    }
    let body = s.e(d.body());
    Code { name: d.name().into(), arity: d.arguments().len(), environment, own, slots: s.names.len(), names: s.names, thunk: d.is_thunk(), body, unit }
}

struct Frame {
    slots: Vec<V>,
    counts: Vec<i32>,
}

impl Interp {
    pub fn new() -> Self {
        Interp {
            globals: vec![],
            public: Default::default(),
            foreign: Default::default(),
            natives: vec![],
            information: Default::default(),
            fallbacks: vec![],
            budget: 0,
            debug: vec![],
            entries: Default::default(),
            clones: 0,
            drops: 0,
            moved: 0,
            in_place: 0,
            depth: 0,
        }
    }

    pub fn native(&mut self, name: &str, arity: usize, f: impl Fn(&mut Interp, Vec<V>) -> R<V> + 'static) {
        let _ = arity;
        let index = self.globals.len();
        self.globals.push(Global::Value(V::Fun(Rc::new(Closure { body: Body::Native(Box::new(f)), environment: vec![], thunk: RefCell::new(Thunk::Fresh) }))));
        self.foreign.insert(name.into(), index);
        self.natives.push((name.into(), index));
    }

    fn unresolved(&mut self, name: &str, foreign: bool) -> usize {
        let table = if foreign { &mut self.foreign } else { &mut self.public };
        if let Some(&i) = table.get(name) {
            return i;
        }
        let index = self.globals.len();
        table.insert(name.into(), index);
        self.globals.push(Global::Unresolved(name.into()));
        index
    }

    /// Links a module: names of its own functions first, then public functions of other modules.
    pub fn load(&mut self, path: &str, module: &mir::ir::Module) {
        let mut names: FnvHashMap<String, usize> = Default::default();
        for d in module.foreign_declarations() {
            let i = self.unresolved(d.foreign_name(), true);
            names.insert(d.name().into(), i);
        }
        for d in module.function_declarations() {
            let i = self.unresolved(d.name(), false);
            names.insert(d.name().into(), i);
        }
        for d in module.function_definitions() {
            let name = d.definition().name();
            let i = if d.is_public() {
                self.unresolved(name, false)
            } else {
                self.globals.push(Global::Unresolved(name.into()));
                self.globals.len() - 1
            };
            names.insert(name.into(), i);
            self.entries.insert((path.into(), name.into()), i);
        }
        let unit = self.fallbacks.len();
        self.fallbacks.push(names.get(module.type_information().fallback()).copied().unwrap_or(usize::MAX));
        for d in module.function_definitions() {
            let definition = d.definition();
            let code = code(definition, &names, unit, true);
            self.globals[names[definition.name()]] =
                Global::Value(V::Fun(Rc::new(Closure { body: Body::Code(Rc::new(code)), environment: vec![], thunk: RefCell::new(Thunk::Fresh) })));
        }
        for d in module.foreign_definitions() {
            let i = names[d.name()];
            if let Some(&j) = self.foreign.get(d.foreign_name()) {
                if let Global::Value(v) = &self.globals[i] {
                    let v = v.clone();
                    self.globals[j] = Global::Value(v);
                }
            }
            self.foreign.insert(d.foreign_name().into(), i);
        }
        for (t, f) in module.type_information().information() {
            if let Some(&i) = names.get(f) {
                self.information.entry(t.clone()).or_insert(i);
            }
        }
    }

    pub fn global(&self, index: usize) -> R<V> {
        match &self.globals[index] {
            Global::Value(v) => Ok(v.clone()),
            Global::Unresolved(n) => wrong(format!("undefined function {n}")),
        }
    }

    pub fn public(&self, name: &str) -> R<V> {
        match self.public.get(name) {
            Some(&i) => self.global(i),
            None => wrong(format!("no public function {name}")),
        }
    }

    pub fn foreign(&self, name: &str) -> R<V> {
        match self.foreign.get(name) {
            Some(&i) => self.global(i),
            None => wrong(format!("no foreign function {name}")),
        }
    }

    pub fn call(&mut self, f: &V, arguments: Vec<V>) -> R<V> {
        let V::Fun(c) = f else { return wrong("call of what is no function") };
        let c = c.clone();
        self.apply(&c, arguments)
    }

    fn apply(&mut self, c: &Rc<Closure>, arguments: Vec<V>) -> R<V> {
        match &c.body {
            Body::Native(f) => f(self, arguments),
            Body::Code(code) => {
                if !code.thunk {
                    return self.run(c, code, arguments);
                }
                if !arguments.is_empty() {
                    return wrong(format!("thunk {} with arguments", code.name));
                }
                match &*c.thunk.borrow() {
                    Thunk::Done(v) => return Ok(v.clone()),
                    Thunk::Running => return wrong(format!("thunk {} needs itself", code.name)),
                    Thunk::Fresh => {}
                }
                *c.thunk.borrow_mut() = Thunk::Running;
                let v = self.run(c, code, arguments)?;
                *c.thunk.borrow_mut() = Thunk::Done(v.clone());
                Ok(v)
            }
        }
    }

    fn run(&mut self, c: &Rc<Closure>, code: &Rc<Code>, arguments: Vec<V>) -> R<V> {
        if arguments.len() != code.arity {
            return wrong(format!("{} called with {} arguments", code.name, arguments.len()));
        }
        if self.depth > 400_000 {
            return Err(Box::new(Trap::Budget));
        }
        let mut slots = arguments;
        slots.resize_with(code.slots, || V::None);
        let mut counts = vec![0; code.slots];
        counts[..code.arity].fill(1);
        for &(i, s) in &code.environment {
            slots[s] = c.environment[i].clone();
            counts[s] = 1;
        }
        if let Some(s) = code.own {
            slots[s] = V::Fun(c.clone());
            counts[s] = 1;
        }
        let mut frame = Frame { slots, counts };
        self.depth += 1;
        let r = self.e(&code.body, &mut frame, code);
        self.depth -= 1;
        let v = match r {
            Ok(v) => v,
            Err(e) => match *e {
                Trap::Return(v) => v,
                e => return Err(Box::new(e)),
            },
        };
        if let Some(i) = frame.counts.iter().position(|c| *c != 0) {
            return wrong(format!("balance: {} returns with {} references of {}", code.name, frame.counts[i], code.names[i]));
        }
        Ok(v)
    }

    fn take(&mut self, s: usize, f: &mut Frame, code: &Code) -> R<V> {
        self.moved += 1;
        f.counts[s] -= 1;
        match f.counts[s] {
            0 => Ok(std::mem::replace(&mut f.slots[s], V::None)),
            n if n > 0 => Ok(f.slots[s].clone()),
            _ => wrong(format!("balance: {} in {} is used after it was moved", code.names[s], code.name)),
        }
    }

    fn bind(&self, s: usize, v: V, f: &mut Frame, code: &Code) -> R<()> {
        if f.counts[s] != 0 {
            return wrong(format!("balance: {} in {} bound again", code.names[s], code.name));
        }
        f.slots[s] = v;
        f.counts[s] = 1;
        Ok(())
    }

    fn number(&mut self, e: &E, f: &mut Frame, code: &Rc<Code>) -> R<f64> {
        match self.e(e, f, code)? {
            V::Num(n) => Ok(n),
            _ => wrong("a number expected"),
        }
    }

    /// Values of operands that are held until all of them are there: a variable moved by one of them is still
    /// alive where another one clones it.
    fn operands(&mut self, es: &[&E], f: &mut Frame, code: &Rc<Code>) -> R<Vec<V>> {
        let mut out = vec![None; es.len()];
        for moved in [false, true] {
            for (e, v) in es.iter().zip(&mut out) {
                if matches!(e, E::Local(_)) == moved {
                    *v = Some(self.e(e, f, code)?);
                }
            }
        }
        Ok(out.into_iter().map(Option::unwrap).collect())
    }

    fn variant(&mut self, e: &E, f: &mut Frame, code: &Rc<Code>) -> R<Rc<(Rc<Type>, V)>> {
        match self.e(e, f, code)? {
            V::Var(v) => Ok(v),
            _ => wrong(format!("a variant expected in {}", code.name)),
        }
    }

    fn e(&mut self, e: &E, f: &mut Frame, code: &Rc<Code>) -> R<V> {
        if self.budget == 0 {
            return Err(Box::new(Trap::Budget));
        }
        self.budget -= 1;
        Ok(match e {
            E::None => V::None,
            E::Bool(b) => V::Bool(*b),
            E::Num(n) => V::Num(*n),
            E::Str(s) => V::Str(s.clone()),
            E::Local(s) => self.take(*s, f, code)?,
            E::Global(i) => self.global(*i)?,
            E::Arithmetic(o, b) => {
                let x = self.number(&b.0, f, code)?;
                let y = self.number(&b.1, f, code)?;
                V::Num(match o {
                    ArithmeticOperator::Add => x + y,
                    ArithmeticOperator::Subtract => x - y,
                    ArithmeticOperator::Multiply => x * y,
                    ArithmeticOperator::Divide => x / y,
                })
            }
            E::Comparison(o, b) => {
                let x = self.number(&b.0, f, code)?;
                let y = self.number(&b.1, f, code)?;
                V::Bool(match o {
                    ComparisonOperator::Equal => x == y,
                    ComparisonOperator::NotEqual => x != y,
                    ComparisonOperator::LessThan => x < y,
                    ComparisonOperator::GreaterThan => x > y,
                    ComparisonOperator::LessThanOrEqual => x <= y,
                    ComparisonOperator::GreaterThanOrEqual => x >= y,
                })
            }
            E::Call(function, arguments) => {
                let function = self.e(function, f, code)?;
                let mut vs = Vec::with_capacity(arguments.len());
                for a in arguments {
                    vs.push(self.e(a, f, code)?);
                }
                self.call(&function, vs)?
            }
            E::Case(argument, alternatives, default) => {
                let v = self.variant(argument, f, code)?;
                for a in alternatives {
                    if a.types.iter().any(|t| **t == *v.0) {
                        self.bind(a.slot, if a.types.len() == 1 { v.1.clone() } else { V::Var(v.clone()) }, f, code)?;
                        drop(v);
                        return self.e(&a.body, f, code);
                    }
                }
                match default {
                    Some(d) => {
                        self.bind(d.0, V::Var(v), f, code)?;
                        self.e(&d.1, f, code)?
                    }
                    None => return wrong(format!("no alternative for {:?} in {}", v.0, code.name)),
                }
            }
            E::Clone(slots, e) => {
                for &s in slots {
                    if f.counts[s] <= 0 {
                        return wrong(format!("balance: {} in {} is cloned after it was moved", code.names[s], code.name));
                    }
                    f.counts[s] += 1;
                    self.clones += 1;
                }
                self.e(e, f, code)?
            }
            E::Drop(slots, e) => {
                for &s in slots {
                    if f.counts[s] <= 0 {
                        return wrong(format!("balance: {} in {} is dropped after it was moved", code.names[s], code.name));
                    }
                    f.counts[s] -= 1;
                    self.drops += 1;
                    if f.counts[s] == 0 {
                        f.slots[s] = V::None;
                    }
                }
                self.e(e, f, code)?
            }
            E::If(b) => match self.e(&b.0, f, code)? {
                V::Bool(true) => self.e(&b.1, f, code)?,
                V::Bool(false) => self.e(&b.2, f, code)?,
                _ => return wrong("a boolean expected"),
            },
            E::Let(s, b) => {
                let v = self.e(&b.0, f, code)?;
                self.bind(*s, v, f, code)?;
                self.e(&b.1, f, code)?
            }
            E::LetRecursive(s, c, environment, e) => {
                let mut vs = Vec::with_capacity(environment.len());
                for &s in environment {
                    vs.push(self.take(s, f, code)?);
                }
                let v = V::Fun(Rc::new(Closure { body: Body::Code(c.clone()), environment: vs, thunk: RefCell::new(Thunk::Fresh) }));
                self.bind(*s, v, f, code)?;
                self.e(e, f, code)?
            }
            E::Record(n, fields) => {
                let mut vs = Vec::with_capacity(fields.len());
                for a in fields {
                    vs.push(self.e(a, f, code)?);
                }
                V::Rec(Rc::new(Record { name: n.clone(), fields: vs }))
            }
            E::Field(n, i, e) => match self.e(e, f, code)? {
                V::Rec(r) if r.name == *n => r.fields[*i].clone(),
                V::Rec(r) => return wrong(format!("field of {} from a record {}", n, r.name)),
                _ => return wrong(format!("a record {n} expected")),
            },
            E::Update(n, r, fields) => match {
                let mut es = vec![&**r];
                es.extend(fields.iter().map(|(_, a)| a));
                let mut vs = self.operands(&es, f, code)?;
                let r = vs.remove(0);
                (r, vs)
            } {
                (V::Rec(mut r), vs) if r.name == *n => {
                    let vs: Vec<_> = fields.iter().map(|(i, _)| *i).zip(vs).collect();
                    if Rc::strong_count(&r) == 1 {
                        self.in_place += 1;
                    }
                    let record = Rc::make_mut(&mut r);
                    for (i, v) in vs {
                        record.fields[i] = v;
                    }
                    V::Rec(r)
                }
                _ => return wrong(format!("a record {n} expected")),
            },
            E::Concatenate(es) => {
                let mut out = vec![];
                let es: Vec<&E> = es.iter().collect();
                for v in self.operands(&es, f, code)? {
                    match v {
                        V::Str(s) => out.extend_from_slice(&s),
                        _ => return wrong("a string expected"),
                    }
                }
                V::Str(out.into())
            }
            E::Try(operand, s, t, then) => {
                let v = self.variant(operand, f, code)?;
                if *v.0 != **t {
                    return Ok(V::Var(v));
                }
                self.bind(*s, v.1.clone(), f, code)?;
                let v = self.e(then, f, code)?;
                return Err(Box::new(Trap::Return(v)));
            }
            E::Information(e) => {
                let v = self.variant(e, f, code)?;
                match self.information.get(&*v.0) {
                    Some(&i) => self.global(i)?,
                    None => match self.fallbacks.get(code.unit) {
                        Some(&i) if i != usize::MAX => self.global(i)?,
                        _ => return wrong("no type information"),
                    },
                }
            }
            E::Variant(t, e) => V::Var(Rc::new((t.clone(), self.e(e, f, code)?))),
        })
    }
}

thread_local! { pub static COUNTER: Cell<u64> = const { Cell::new(0) }; }

pub fn string(s: impl AsRef<[u8]>) -> V {
    V::Str(s.as_ref().into())
}

/// A function which gives a value already known.
pub fn constant(v: V) -> V {
    V::Fun(Rc::new(Closure { body: Body::Native(Box::new(move |_, _| Ok(v.clone()))), environment: vec![], thunk: RefCell::new(Thunk::Fresh) }))
}
