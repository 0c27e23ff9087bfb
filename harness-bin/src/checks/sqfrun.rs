//! A small interpreter of SQF that runs a script either from its tree (every array that is
//! written out is a new array) or from its compiled form (constants are shared by all runs).
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use super::sqf::{Blk, Cn, Ex, In, Sqfc, St};

#[derive(Clone)]
pub enum V<'a> { Nil, Num(f32), Str(String), Bool(bool), Arr(Rc<RefCell<Vec<V<'a>>>>), Src(&'a [St]), Byte(&'a Blk), If(bool), Thing(String) }
use V::*;

pub enum Stop { Error(&'static str), Fuel }
type Res<'a> = Result<V<'a>, Stop>;
fn err<T>(s: &'static str) -> Result<T, Stop> { Err(Stop::Error(s)) }

pub struct World<'a> {
    pub globals: BTreeMap<String, V<'a>>,
    pub vars: BTreeMap<(String, String), V<'a>>,
    pub log: Vec<String>,
    locals: Vec<BTreeMap<String, V<'a>>>,
    code: Option<&'a Sqfc>,
    shared: BTreeMap<u16, V<'a>>,
    fuel: u32,
}
pub fn show(v: &V, depth: usize) -> String {
    if depth > 6 { return "...".into(); }
    match v {
        Nil => "nil".into(),
        Num(n) => if n.is_nan() { "nan".into() } else { format!("{n}#{:x}", n.to_bits()) },
        Str(s) => format!("{s:?}"),
        Bool(b) => b.to_string(),
        Arr(a) => a.try_borrow().map_or("busy".into(), |a| format!("[{}]", a.iter().map(|x| show(x, depth + 1)).collect::<Vec<_>>().join(","))),
        Src(_) | Byte(_) => "code".into(),
        If(b) => format!("if {b}"),
        Thing(s) => s.clone(),
    }
}
fn arr<'a>(v: Vec<V<'a>>) -> V<'a> { Arr(Rc::new(RefCell::new(v))) }
fn copy<'a>(v: &V<'a>, depth: usize) -> Res<'a> {
    if depth > 8 { return err("deep"); }
    Ok(match v { Arr(a) => { let items: Vec<V> = a.borrow().clone(); arr(items.iter().map(|x| copy(x, depth + 1)).collect::<Result<_, _>>()?) } o => o.clone() })
}
fn nums(v: &V) -> Result<Vec<f32>, Stop> {
    match v { Arr(a) => a.borrow().iter().map(|x| if let Num(n) = x { Ok(*n) } else { err("number") }).collect(), _ => err("array") }
}
fn items<'a>(v: &V<'a>) -> Result<Vec<V<'a>>, Stop> { match v { Arr(a) => Ok(a.borrow().clone()), _ => err("array") } }
fn pick<'a>(a: &V<'a>, i: &V<'a>) -> Res<'a> {
    match (a, i) {
        (Arr(a), Num(n)) => a.borrow().get(*n as usize).cloned().map_or_else(|| err("index"), Ok),
        (Arr(a), Bool(b)) => a.borrow().get(usize::from(*b)).cloned().map_or_else(|| err("index"), Ok),
        _ => err("select"),
    }
}

impl<'a> World<'a> {
    pub fn new(code: Option<&'a Sqfc>) -> Self {
        Self { globals: BTreeMap::new(), vars: BTreeMap::new(), log: vec![], locals: vec![], code, shared: BTreeMap::new(), fuel: 0 }
    }
    /// everything that can be seen from outside
    pub fn state(&self) -> String {
        format!("{:?} {:?} {:?}", self.globals.iter().map(|(k, v)| (k.clone(), show(v, 0))).collect::<Vec<_>>(), self.vars.iter().map(|(k, v)| (k.clone(), show(v, 0))).collect::<Vec<_>>(), self.log)
    }
    pub fn run(&mut self, code: V<'a>, this: V<'a>) {
        self.fuel = 300;
        match self.call(&code, Some(this)) {
            Ok(_) => {}
            Err(Stop::Error(e)) => self.log.push(format!("error {e}")),
            Err(Stop::Fuel) => self.log.push("endless".into()),
        }
        self.locals.clear();
    }
    fn call(&mut self, code: &V<'a>, this: Option<V<'a>>) -> Res<'a> {
        if self.locals.len() > 12 { return Err(Stop::Fuel); }
        let mut scope = BTreeMap::new();
        if let Some(t) = this { scope.insert("_this".to_string(), t); }
        self.locals.push(scope);
        let r = match code {
            Src(v) => self.statements(v),
            Byte(b) => self.block(b),
            _ => err("code"),
        };
        self.locals.pop();
        r
    }
    fn tick(&mut self) -> Result<(), Stop> { if self.fuel == 0 { return Err(Stop::Fuel); } self.fuel -= 1; Ok(()) }

    // ------------------------------------------------ the tree
    fn statements(&mut self, v: &'a [St]) -> Res<'a> {
        let mut last = Nil;
        for s in v {
            self.tick()?;
            last = match s {
                St::Do(e, _) => self.ex(e)?,
                St::Set(n, e, _) => { let x = self.ex(e)?; self.assign(n, x); Nil }
                St::Local(n, e, _) => { let x = self.ex(e)?; self.local(n, x); Nil }
            };
        }
        Ok(last)
    }
    fn ex(&mut self, e: &'a Ex) -> Res<'a> {
        Ok(match e {
            Ex::Code(v, _) => Src(v),
            Ex::Str(s, _) => Str(s.clone()),
            Ex::Num(n, _) => Num(*n),
            Ex::Bool(b, _) => Bool(*b),
            Ex::Arr(v, _) => { let mut o = vec![]; for x in v { o.push(self.ex(x)?); } arr(o) }
            Ex::Nul(n, _) => Self::nular(n),
            Ex::Un(n, x, _) => { let x = self.ex(x)?; self.unary(n, x)? }
            Ex::Bin(n, l, r, _) => { let l = self.ex(l)?; let r = self.ex(r)?; self.binary(n, l, r)? }
            Ex::Var(n, _) => self.get(n),
        })
    }
    // ------------------------------------------------ the instructions
    fn constant(&self, c: &'a Cn) -> V<'a> {
        match c {
            Cn::Code(b) => Byte(b),
            Cn::Str(s) => Str(String::from_utf8_lossy(s).into_owned()),
            Cn::Num(n) => Num(f32::from_bits(*n)),
            Cn::Bool(b) => Bool(*b),
            Cn::Arr(v) => arr(v.iter().map(|c| self.constant(c)).collect()),
            Cn::Nul(n) => Self::nular(n),
        }
    }
    fn block(&mut self, b: &'a Blk) -> Res<'a> {
        let code = self.code.ok_or(Stop::Error("no code"))?;
        let mut st: Vec<V> = vec![];
        let mut last = Nil;
        for i in &b.ins {
            match i {
                In::End => { self.tick()?; st.clear(); last = Nil; }
                In::Push(c) => {
                    let v = match self.shared.get(c) {
                        Some(v) => v.clone(),
                        None => { let v = self.constant(&code.consts[usize::from(*c)]); self.shared.insert(*c, v.clone()); v }
                    };
                    st.push(v);
                }
                In::Make(n, _) => { let v = st.split_off(st.len() - usize::from(*n)); st.push(arr(v)); }
                In::Call(t, n, _) => {
                    let name = &code.names[usize::from(*n)];
                    match t {
                        2 => { let x = st.pop().ok_or(Stop::Error("stack"))?; let r = self.unary(name, x)?; st.push(r); }
                        3 => { let r = st.pop().ok_or(Stop::Error("stack"))?; let l = st.pop().ok_or(Stop::Error("stack"))?; let r = self.binary(name, l, r)?; st.push(r); }
                        4 => st.push(Self::nular(name)),
                        5 => { let x = st.pop().ok_or(Stop::Error("stack"))?; self.assign(name, x); }
                        6 => { let x = st.pop().ok_or(Stop::Error("stack"))?; self.local(name, x); }
                        _ => { let v = self.get(name); st.push(v); }
                    }
                }
            }
            last = st.last().cloned().unwrap_or(Nil);
        }
        Ok(last)
    }
    // ------------------------------------------------ variables
    fn local(&mut self, n: &str, v: V<'a>) { if let Some(s) = self.locals.last_mut() { s.insert(n.to_lowercase(), v); } }
    fn assign(&mut self, n: &str, v: V<'a>) {
        let n = n.to_lowercase();
        if n.starts_with('_') {
            for s in self.locals.iter_mut().rev() { if let Some(x) = s.get_mut(&n) { *x = v; return; } }
            self.local(&n, v);
        } else { self.globals.insert(n, v); }
    }
    fn get(&self, n: &str) -> V<'a> {
        let n = n.to_lowercase();
        if n.starts_with('_') { self.locals.iter().rev().find_map(|s| s.get(&n)).cloned().unwrap_or(Nil) } else { self.globals.get(&n).cloned().unwrap_or(Nil) }
    }
    // ------------------------------------------------ commands
    fn nular(n: &str) -> V<'a> { match n.to_lowercase().as_str() { "nil" => Nil, s => Thing(s.into()) } }
    fn params(&mut self, args: &V<'a>, spec: &V<'a>) -> Res<'a> {
        let args = match args { Arr(a) => a.borrow().clone(), o => vec![o.clone()] };
        for (i, s) in items(spec)?.into_iter().enumerate() {
            let (name, default) = match &s {
                Str(n) => (n.clone(), Nil),
                Arr(a) => {
                    let a = a.borrow();
                    match a.first() { Some(Str(n)) => (n.clone(), a.get(1).cloned().unwrap_or(Nil)), _ => return err("params") }
                }
                _ => return err("params"),
            };
            let v = match args.get(i) { None | Some(Nil) => default, Some(v) => v.clone() };
            self.local(&name, v);
        }
        Ok(Bool(true))
    }
    fn param(args: &V<'a>, spec: &V<'a>) -> Res<'a> {
        let args = match args { Arr(a) => a.borrow().clone(), o => vec![o.clone()] };
        let s = items(spec)?;
        let Some(Num(i)) = s.first() else { return err("param") };
        Ok(match args.get(*i as usize) { None | Some(Nil) => s.get(1).cloned().unwrap_or(Nil), Some(v) => v.clone() })
    }
    fn unary(&mut self, n: &str, x: V<'a>) -> Res<'a> {
        self.tick()?;
        Ok(match (n.to_lowercase().as_str(), x) {
            ("-", Num(a)) => Num(-a),
            ("+", v @ (Num(_) | Arr(_))) => copy(&v, 0)?,
            ("!" | "not", Bool(b)) => Bool(!b),
            ("sqrt", Num(a)) => Num(a.sqrt()),
            ("tolower" , Str(s)) => Str(s.to_lowercase()),
            ("toupper" , Str(s)) => Str(s.to_uppercase()),
            ("toloweransi", Str(s)) => Str(s.to_ascii_lowercase()),
            ("toupperansi", Str(s)) => Str(s.to_ascii_uppercase()),
            ("str", v) => Str(show(&v, 0)),
            ("count", Arr(a)) => Num(a.borrow().len() as f32),
            ("call", c @ (Src(_) | Byte(_))) => self.call(&c, None)?,
            ("if", Bool(b)) => If(b),
            ("systemchat", Str(s)) => { self.log.push(s); Nil }
            ("params", s) => { let t = self.get("_this"); self.params(&t, &s)? }
            ("param", s) => { let t = self.get("_this"); Self::param(&t, &s)? }
            ("random" | "positioncameratoworld", v) => { nums(&v)?; self.log.push(format!("{n} {}", show(&v, 0)).to_lowercase()); Num(0.5) }
            ("private", _) => Nil,
            _ => return err("unary"),
        })
    }
    fn binary(&mut self, n: &str, l: V<'a>, r: V<'a>) -> Res<'a> {
        self.tick()?;
        Ok(match (n.to_lowercase().as_str(), l, r) {
            ("+", Num(a), Num(b)) => Num(a + b),
            ("+", Str(a), Str(b)) => Str(a + &*b),
            ("+", Arr(a), Arr(b)) => { let mut v = a.borrow().clone(); v.extend(b.borrow().iter().cloned()); arr(v) }
            ("-", Num(a), Num(b)) => Num(a - b),
            ("*", Num(a), Num(b)) => Num(a * b),
            ("/", Num(_), Num(b)) if b == 0.0 => return err("zero"),
            ("/", Num(a), Num(b)) => Num(a / b),
            ("%" | "mod", Num(a), Num(b)) => Num(a % b),
            ("^", Num(a), Num(b)) => Num(a.powf(b)),
            ("max", Num(a), Num(b)) => Num(a.max(b)),
            ("min", Num(a), Num(b)) => Num(a.min(b)),
            (">", Num(a), Num(b)) => Bool(a > b),
            ("else", a @ (Src(_) | Byte(_)), b @ (Src(_) | Byte(_))) => arr(vec![a, b]),
            ("then", If(c), code @ (Src(_) | Byte(_))) => if c { self.call(&code, None)? } else { Nil },
            ("then", If(c), Arr(a)) => { let code = a.borrow().get(usize::from(!c)).cloned(); match code { Some(k) => self.call(&k, None)?, None => return err("then") } }
            ("select" | "#", a, b) => pick(&a, &b)?,
            ("call", a, c @ (Src(_) | Byte(_))) => self.call(&c, Some(a))?,
            ("params", a, s) => self.params(&a, &s)?,
            ("param", a, s) => Self::param(&a, &s)?,
            ("getvariable", Thing(t), Str(k)) => self.vars.get(&(t, k.to_lowercase())).cloned().unwrap_or(Nil),
            ("getvariable", Thing(t), Arr(s)) => {
                let s = s.borrow();
                let Some(Str(k)) = s.first() else { return err("getVariable") };
                match self.vars.get(&(t, k.to_lowercase())) { None | Some(Nil) => s.get(1).cloned().unwrap_or(Nil), Some(v) => v.clone() }
            }
            ("setvariable", Thing(t), Arr(s)) => {
                let s = s.borrow();
                let Some(Str(k)) = s.first() else { return err("setVariable") };
                self.vars.insert((t, k.to_lowercase()), s.get(1).cloned().unwrap_or(Nil));
                Nil
            }
            ("getordefault", Thing(t), Arr(s)) => {
                let s = s.borrow();
                let Some(Str(k)) = s.first() else { return err("getOrDefault") };
                let key = (t + " map", k.to_lowercase());
                match self.vars.get(&key) {
                    Some(v) => v.clone(),
                    None => {
                        let v = s.get(1).cloned().unwrap_or(Nil);
                        if matches!(s.get(2), Some(Bool(true))) { self.vars.insert(key, v.clone()); }
                        v
                    }
                }
            }
            ("vectoradd", a, b) => { let (a, b) = (nums(&a)?, nums(&b)?); arr(a.iter().zip(&b).map(|(x, y)| Num(x + y)).collect()) }
            ("vectordiff", a, b) => { let (a, b) = (nums(&a)?, nums(&b)?); arr(a.iter().zip(&b).map(|(x, y)| Num(x - y)).collect()) }
            ("vectorcrossproduct", a, b) => { let (a, b) = (nums(&a)?, nums(&b)?); arr(a.iter().zip(b.iter().rev()).map(|(x, y)| Num(x * y - y)).collect()) }
            ("vectordotproduct", a, b) => { let (a, b) = (nums(&a)?, nums(&b)?); Num(a.iter().zip(&b).map(|(x, y)| x * y).sum()) }
            ("random", a, b) => { let v = [show(&a, 0), show(&b, 0)]; self.log.push(format!("random {v:?}")); a }
            ("pushback", Arr(a), v) => { a.borrow_mut().push(v); let n = a.borrow().len(); Num(n as f32 - 1.0) }
            ("set", Arr(a), Arr(s)) => {
                let (i, v) = { let s = s.borrow(); match (s.first(), s.get(1)) { (Some(Num(i)), Some(v)) => (*i as usize, v.clone()), _ => return err("set") } };
                let mut a = a.borrow_mut();
                if i > 20 { return err("set"); }
                while a.len() <= i { a.push(Nil); }
                a[i] = v;
                Nil
            }
            ("isequalto", a, b) => Bool(show(&a, 0) == show(&b, 0)),
            _ => return err("binary"),
        })
    }
}
