//! Configs: parsing, binarisation, values, lints, patches.
use std::collections::{BTreeMap, BTreeSet};

use hemtt_config::rapify::Rapify;
use hemtt_config::ConfigReport;
use hemtt_workspace::reporting::{Code, Codes, Processed, Severity};

use super::pre::{project, run_file, show};
use crate::fw::*;
use crate::{ensure, ensure_eq};

/// A value as it stands in a config
#[derive(Clone, Debug, PartialEq)]
enum V { S(String), I(i64), F(f32), E(String), A(Vec<V>) }
/// What a class holds
#[derive(Clone, Debug, PartialEq)]
enum P { Entry(String, V), Array(String, bool, Vec<V>), Class(String, Option<String>, Vec<P>), External(String), Delete(String) }

// ------------------------------------------------------------------ independent reader of the binary form
struct Rap<'a> { b: &'a [u8], i: usize }
impl Rap<'_> {
    fn u8(&mut self) -> Result<u8, String> { let x = *self.b.get(self.i).ok_or(format!("end of data at {}", self.i))?; self.i += 1; Ok(x) }
    fn arr<const N: usize>(&mut self) -> Result<[u8; N], String> { let mut a = [0; N]; for x in &mut a { *x = self.u8()?; } Ok(a) }
    fn u32(&mut self) -> Result<u32, String> { Ok(u32::from_le_bytes(self.arr()?)) }
    fn text(&mut self) -> Result<String, String> { let mut v = vec![]; loop { match self.u8()? { 0 => return String::from_utf8(v).map_err(|e| e.to_string()), c => v.push(c) } } }
    fn count(&mut self) -> Result<usize, String> {
        let (mut x, mut s) = (0usize, 0);
        loop { let b = self.u8()? as usize; x |= (b & 0x7f) << s; s += 7; if b < 0x80 { ensure!(s == 7 || b != 0, "count at {} has an empty last byte", self.i); return Ok(x); } ensure!(s < 35, "count too long"); }
    }
    fn value(&mut self, kind: u8, item: bool) -> Result<V, String> {
        Ok(match kind {
            0 => V::S(self.text()?),
            1 => V::F(f32::from_le_bytes(self.arr()?)),
            2 => V::I(i32::from_le_bytes(self.arr()?).into()),
            3 if item => V::A(self.items()?),
            4 if !item => V::E(self.text()?),
            6 => V::I(i64::from_le_bytes(self.arr()?)),
            k => return Err(format!("unknown value kind {k} at {}", self.i)),
        })
    }
    fn items(&mut self) -> Result<Vec<V>, String> { let n = self.count()?; (0..n).map(|_| { let k = self.u8()?; self.value(k, true) }).collect() }
    /// The body of a class. The bodies of its classes follow it in order, and nothing else.
    fn body(&mut self) -> Result<(Option<String>, Vec<P>), String> {
        let parent = self.text()?;
        let n = self.count()?;
        let mut out = vec![];
        let mut bodies = vec![];
        for _ in 0..n {
            match self.u8()? {
                0 => { let name = self.text()?; let at = self.u32()? as usize; bodies.push((out.len(), at)); out.push(P::Class(name, None, vec![])); }
                1 => { let k = self.u8()?; let name = self.text()?; out.push(P::Entry(name, self.value(k, false)?)); }
                2 => { let name = self.text()?; out.push(P::Array(name, false, self.items()?)); }
                3 => out.push(P::External(self.text()?)),
                4 => out.push(P::Delete(self.text()?)),
                5 => { ensure_eq!(self.u32()?, 1, "flags of an array that is extended"); let name = self.text()?; out.push(P::Array(name, true, self.items()?)); }
                k => return Err(format!("unknown entry kind {k} at {}", self.i)),
            }
        }
        let end = self.u32()? as usize;
        for (at, off) in bodies {
            ensure_eq!(off, self.i, "place of the body of {:?}", out[at]);
            let (p, v) = self.body()?;
            if let P::Class(_, a, b) = &mut out[at] { *a = p; *b = v; }
        }
        ensure_eq!(end, self.i, "end of the class");
        Ok(((!parent.is_empty()).then_some(parent), out))
    }
}
fn derap(b: &[u8]) -> Result<Vec<P>, String> {
    let mut r = Rap { b, i: 0 };
    ensure_eq!(r.arr::<12>()?, *b"\0raP\0\0\0\0\x08\0\0\0", "header");
    let enums = r.u32()? as usize;
    let (p, v) = r.body()?;
    ensure!(p.is_none(), "the root has a parent");
    ensure_eq!(enums, r.i, "place of the enums");
    ensure_eq!(r.u32()?, 0, "number of enums");
    ensure_eq!(r.i, b.len(), "length");
    Ok(v)
}

// ------------------------------------------------------------------ independent parser of the text
fn num_lit(s: &str) -> Option<(V, usize)> {
    let b = s.as_bytes();
    let mut i = 0;
    let neg = b.first() == Some(&b'-');
    if neg { i = 1; }
    let digits = |i: usize| (i..b.len()).take_while(|&k| b[k].is_ascii_digit()).count();
    if b[i..].starts_with(b"0x") {
        let n = (i + 2..b.len()).take_while(|&k| b[k].is_ascii_hexdigit()).count();
        if n > 0 { let v = i64::from_str_radix(&s[i + 2..i + 2 + n], 16).ok()?; return Some((V::I(if neg { -v } else { v }), i + 2 + n)); }
    }
    let whole = digits(i);
    let mut e = i + whole;
    let mut float = false;
    if b.get(e) == Some(&b'.') && digits(e + 1) > 0 { float = true; e += 1 + digits(e + 1); }
    if whole == 0 && !float { return None; }
    if matches!(b.get(e), Some(b'e' | b'E')) && (whole > 0) {
        let sign = usize::from(matches!(b.get(e + 1), Some(b'+' | b'-')));
        let n = digits(e + 1 + sign);
        if n > 0 { float = true; e += 1 + sign + n; }
    }
    if float { return Some((V::F(s[..e].parse().ok()?), e)); }
    Some((V::I(s[i..e].parse::<i64>().ok().map(|v| if neg { -v } else { v })?), e))
}
/// A number, or an expression of numbers. Err when whether it is one is left open.
fn number(t: &str) -> Result<Option<V>, ()> {
    let t = t.trim_matches(' ');
    if let Some((v, n)) = num_lit(t) { if n == t.len() { return Ok(Some(v)); } }
    struct M<'a> { s: &'a str, open: bool }
    impl M<'_> {
        fn sp(&mut self) { self.s = self.s.trim_start_matches(' '); }
        fn sum(&mut self) -> Option<f64> { let mut a = self.prod()?; loop { self.sp(); match self.s.chars().next() { Some('+') => { self.s = &self.s[1..]; a += self.prod()?; } Some('-') => { self.s = &self.s[1..]; a -= self.prod()?; } _ => return Some(a) } } }
        fn prod(&mut self) -> Option<f64> { let mut a = self.pow()?; loop { self.sp(); match self.s.chars().next() { Some('*') => { self.s = &self.s[1..]; a *= self.pow()?; } Some('/') => { self.s = &self.s[1..]; a /= self.pow()?; } Some('%') => { self.s = &self.s[1..]; a %= self.pow()?; } _ => return Some(a) } } }
        fn pow(&mut self) -> Option<f64> { let a = self.atom()?; self.sp(); if self.s.starts_with('^') { self.s = &self.s[1..]; let b = self.pow()?; return Some(a.powf(b)); } Some(a) }
        fn atom(&mut self) -> Option<f64> {
            self.sp();
            if self.s.starts_with('(') { self.s = &self.s[1..]; let v = self.sum()?; self.sp(); if !self.s.starts_with(')') { return None; } self.s = &self.s[1..]; return Some(v); }
            if self.s.starts_with(['-', '+']) && num_lit(self.s).is_none() { self.open = true; }
            let (v, n) = num_lit(self.s)?;
            self.s = &self.s[n..];
            Some(match v { V::I(x) => x.to_string().parse().unwrap(), V::F(x) => x.to_string().parse().unwrap(), _ => unreachable!() })
        }
    }
    let mut m = M { s: t, open: false };
    let v = m.sum();
    m.sp();
    match v {
        Some(v) if m.s.is_empty() => Ok(Some(if v.fract() == 0.0 && v >= -9_223_372_036_854_775_808.0 && v < 9_223_372_036_854_775_808.0 { V::I(v as i64) } else { V::F(v as f32) })),
        _ if m.open => Err(()),
        _ => Ok(None),
    }
}
#[derive(Debug)]
enum No { Refused, Open }
struct Text<'a> { c: &'a [u8], i: usize }
type Got<T> = Result<T, No>;
impl Text<'_> {
    fn ws(&mut self) { while self.c.get(self.i).is_some_and(u8::is_ascii_whitespace) { self.i += 1; } }
    fn eat(&mut self, s: &str) -> bool { self.ws(); if self.c[self.i..].starts_with(s.as_bytes()) { self.i += s.len(); true } else { false } }
    fn need(&mut self, s: &str) -> Got<()> { if self.eat(s) { Ok(()) } else { Err(No::Refused) } }
    fn ident(&mut self) -> Got<String> { self.ws(); let s = self.i; while self.c.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_') { self.i += 1; } if s == self.i { Err(No::Refused) } else { Ok(String::from_utf8_lossy(&self.c[s..self.i]).into_owned()) } }
    fn word(&mut self, w: &str) -> bool { self.ws(); let r = &self.c[self.i..]; if r.starts_with(w.as_bytes()) && r.get(w.len()).is_some_and(u8::is_ascii_whitespace) { self.i += w.len(); true } else { false } }
    fn props(&mut self, top: bool) -> Got<Vec<P>> {
        let mut out = vec![];
        loop {
            self.ws();
            if top && self.i == self.c.len() { return Ok(out); }
            if !top && self.eat("}") { return Ok(out); }
            out.push(self.prop()?);
            self.need(";")?;
        }
    }
    fn prop(&mut self) -> Got<P> {
        if self.word("class") {
            self.ws();
            // whether a class can be named by a word of the language is left open
            if self.c[self.i..].starts_with(b"=") || self.c[self.i..].starts_with(b"[]") { return Err(No::Open); }
            let n = self.ident()?;
            let parent = if self.eat(":") { Some(self.ident()?) } else { None };
            if self.eat("{") { return Ok(P::Class(n, parent, self.props(false)?)); }
            if parent.is_some() { return Err(No::Refused); }
            return Ok(P::External(n));
        }
        if self.word("delete") { return Ok(P::Delete(self.ident()?)); }
        let n = self.ident()?;
        if self.eat("[]") {
            let more = if self.eat("+=") { true } else { self.need("=")?; false };
            return Ok(P::Array(n, more, self.array()?));
        }
        self.need("=")?;
        Ok(P::Entry(n, self.value(true)?))
    }
    fn array(&mut self) -> Got<Vec<V>> {
        self.need("{")?;
        let mut out = vec![];
        loop {
            if self.eat("}") { return Ok(out); }
            self.ws();
            out.push(if self.c.get(self.i) == Some(&b'{') { V::A(self.array()?) } else { self.value(false)? });
            if self.eat(",") { continue; }
            self.need("}")?;
            return Ok(out);
        }
    }
    fn value(&mut self, eval: bool) -> Got<V> {
        self.ws();
        if self.c.get(self.i) == Some(&b'"') {
            let mut s = vec![];
            loop {
                self.i += 1;
                let mut seg = vec![];
                loop {
                    match self.c.get(self.i) { None => return Err(No::Refused), Some(b'"') => { self.i += 1; if self.c.get(self.i) != Some(&b'"') { break; } seg.push(b'"'); } Some(c) => seg.push(*c) }
                    self.i += 1;
                }
                s.extend(String::from_utf8_lossy(&seg).replace("\\\n", "").into_bytes());
                let back = self.i;
                if self.eat("\\n") { self.ws(); if self.c.get(self.i) == Some(&b'"') { s.push(b'\n'); continue; } }
                self.i = back;
                return Ok(V::S(String::from_utf8(s).unwrap()));
            }
        }
        if eval && self.c[self.i..].starts_with(b"__EVAL") {
            self.i += 6;
            let (s, mut depth) = (self.i, 0);
            if self.c.get(s) != Some(&b'(') { return Err(No::Refused); }
            loop {
                match self.c.get(self.i) { None => return Err(No::Refused), Some(b'(') => { depth += 1; if self.c.get(self.i + 1) == Some(&b')') { return Err(No::Open); } } Some(b')') => depth -= 1, _ => {} }
                self.i += 1;
                if depth == 0 { return Ok(V::E(String::from_utf8_lossy(&self.c[s + 1..self.i - 1]).into_owned())); }
            }
        }
        let s = self.i;
        while self.c.get(self.i).is_some_and(|c| c.is_ascii_alphanumeric() || b".+-*/%^() ".contains(c)) { self.i += 1; }
        match number(std::str::from_utf8(&self.c[s..self.i]).unwrap()) { Ok(Some(v)) => Ok(v), Ok(None) => Err(No::Refused), Err(()) => Err(No::Open) }
    }
}
fn ref_parse(s: &str) -> Got<Vec<P>> { Text { c: s.as_bytes(), i: 0 }.props(true) }

// ------------------------------------------------------------------ running the real code
pub struct Ran { processed: Processed, pub report: Result<ConfigReport, Codes> }
pub fn run_text(s: &str) -> Result<Ran, String> { run_files(&[("config.cpp", s)]) }
fn run_files(f: &[(&str, &str)]) -> Result<Ran, String> {
    let ws = project(f)?;
    let processed = run_file(&ws, "config.cpp").map_err(|e| format!("preprocessing {:?}: {e}", f[0].1))?;
    let report = no_panic(|| hemtt_config::parse(None, &processed)).map_err(|e| format!("parsing {:?} crashed: {e}", f[0].1))?;
    Ok(Ran { processed, report })
}
impl Ran {
    fn codes(&self) -> &[std::sync::Arc<dyn Code>] { match &self.report { Ok(r) => r.codes(), Err(c) => c } }
    fn errors(&self) -> Vec<&'static str> { self.codes().iter().filter(|c| c.severity() == Severity::Error).map(|c| c.ident()).collect() }
    /// errors that say that the text is not a config, in contrast to those of what it declares
    fn syntax(&self) -> Vec<&'static str> { self.errors().into_iter().filter(|c| !matches!(*c, "L-C02" | "L-C03" | "L-C04" | "L-C05" | "L-C09")).collect() }
    fn shown(&self) -> Result<(), String> {
        for c in self.codes() { ensure!(c.diagnostic().is_some(), "{} can not be shown", c.ident()); show(&**c)?; }
        if let Err(c) = &self.report { ensure!(!c.is_empty(), "refused without an error"); ensure!(c.iter().any(|c| c.severity() == Severity::Error), "refused without an error"); }
        Ok(())
    }
    fn rap(&self) -> Result<Vec<u8>, String> {
        let c = match &self.report { Ok(r) => r.config(), Err(_) => return Err("refused".into()) };
        no_panic(|| {
            let mut out = vec![];
            let n = c.rapify(&mut out, 0).map_err(|e| e.to_string())?;
            ensure_eq!(n, out.len(), "number of bytes written");
            ensure_eq!(c.rapified_length(), out.len(), "announced length");
            Ok(out)
        })?
    }
}
fn same(a: &V, b: &V) -> bool { match (a, b) { (V::F(x), V::F(y)) => x == y || x.is_nan() && y.is_nan(), (V::A(x), V::A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)), _ => a == b } }
fn same_all(a: &[P], b: &[P]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| match (a, b) {
        (P::Entry(n, v), P::Entry(m, w)) => n == m && same(v, w),
        (P::Array(n, e, v), P::Array(m, f, w)) => n == m && e == f && v.len() == w.len() && v.iter().zip(w).all(|(x, y)| same(x, y)),
        (P::Class(n, p, v), P::Class(m, q, w)) => n == m && p == q && same_all(v, w),
        _ => a == b,
    })
}
/// A text that has to be accepted as exactly this config
fn means(text: &str, want: &[P], o: &mut Obs) -> R {
    let r = run_text(text)?;
    o.steps(1);
    ensure!(r.syntax().is_empty(), "{text:?} is refused: {:?}", r.errors());
    let bytes = r.rap().map_err(|e| format!("binarising {}: {e}", clip(text, 400)))?;
    let got = derap(&bytes).map_err(|e| format!("{} is malformed: {e}", clip(text, 400)))?;
    ensure!(same_all(&got, want), "{} became {}", clip(text, 400), clip(&format!("{got:?}"), 600));
    o.state(&bytes);
    Ok(())
}
/// Any text: accepted exactly if it is a config, as what it says, otherwise with an error that can be shown
fn judged(text: &str, o: &mut Obs) -> R {
    let r = run_text(text)?;
    o.steps(1);
    r.shown().map_err(|e| format!("{text:?}: {e}"))?;
    match ref_parse(r.processed.as_str()) {
        Ok(want) => {
            ensure!(r.syntax().is_empty(), "{text:?} is refused: {:?}", r.errors());
            let got = derap(&r.rap().map_err(|e| format!("binarising {text:?}: {e}"))?).map_err(|e| format!("{text:?} is malformed: {e}"))?;
            ensure!(same_all(&got, &want), "{text:?} became {got:?}, expected {want:?}");
            o.state(format!("{got:?}"));
        }
        Err(No::Open) => { if r.syntax().is_empty() { r.rap()?; } o.state("open"); }
        Err(No::Refused) => { ensure!(!r.syntax().is_empty(), "{text:?} is accepted as {:?}", r.rap().and_then(|b| derap(&b))); o.state(r.errors()); }
    }
    Ok(())
}

fn render(p: &[P], out: &mut String) {
    for x in p {
        match x {
            P::Entry(n, v) => { *out += &format!("{n} = "); render_v(v, out); }
            P::Array(n, m, v) => { *out += &format!("{n}[] {} ", if *m { "+=" } else { "=" }); render_v(&V::A(v.clone()), out); }
            P::Class(n, q, v) => { *out += &format!("class {n}"); if let Some(q) = q { *out += &format!(": {q}"); } *out += " {\n"; render(v, out); *out += "}"; }
            P::External(n) => *out += &format!("class {n}"),
            P::Delete(n) => *out += &format!("delete {n}"),
        }
        *out += ";\n";
    }
}
fn render_v(v: &V, out: &mut String) {
    match v {
        V::S(s) => *out += &format!("\"{}\"", s.replace('"', "\"\"")),
        V::I(x) => *out += &x.to_string(),
        V::F(x) => { let s = x.to_string(); *out += &s; if !s.contains('.') { *out += ".0"; } }
        V::E(s) => *out += &format!("__EVAL({s})"),
        V::A(v) => { out.push('{'); for (i, x) in v.iter().enumerate() { if i > 0 { out.push(','); } render_v(x, out); } out.push('}'); }
    }
}
fn text_of(p: &[P]) -> String { let mut s = String::new(); render(p, &mut s); s }

// ------------------------------------------------------------------ D01 structure
pub fn structure_check(ck: &Ck) {
    ck.assume("the binary form is the one of version 8 with an empty list of enums, with 64-bit integers as kind 6 (as the existing tests pin)");
    // a config is a preorder sequence: 0..8 leaves, 8.. classes, 255 end of class
    let al: Vec<u8> = (0..10).chain([255]).collect();
    let ok = |s: &Vec<u8>| { let mut d = 0i32; for x in s { if *x == 255 { d -= 1; if d < 0 { return false; } } else if *x >= 8 { d += 1; } } d == 0 };
    fn build(s: &[u8], i: &mut usize, id: &mut usize) -> Vec<P> {
        let mut out = vec![];
        while *i < s.len() {
            let k = s[*i];
            *i += 1;
            *id += 1;
            let n = ["a", "Bb", "_c_", "9D", "é"][*id % 4].to_string() + &id.to_string();
            out.push(match k {
                0 => P::Entry(n, V::S("t\"é".into())), 1 => P::Entry(n, V::I(-7)), 2 => P::Entry(n, V::F(0.5)), 3 => P::Entry(n, V::E("f (1) + 2".into())),
                4 => P::Array(n, false, vec![]), 5 => P::Array(n, true, vec![V::A(vec![V::S("x".into()), V::A(vec![])]), V::F(1.0), V::I(1 << 40)]),
                6 => P::External(n), 7 => P::Delete(n),
                8 | 9 => P::Class(n, (k == 9).then(|| "Base".to_string()), build(s, i, id)),
                _ => return out,
            });
        }
        out
    }
    ck.explore("trees", "every tree of entries of eight kinds and classes with and without a parent, of up to the bound of entries and class ends: its binary form is read by an independent reader as exactly that tree", seqs(&al, 0, ck.t(6, 7)).filter(ok), |s, o| {
        let mut p = vec![P::External("Base".into())];
        p.extend(build(s, &mut 0, &mut 0));
        means(&text_of(&p), &p, o)
    });
    // counts and sizes around the borders of their encodings
    let ns = ck.t(vec![0usize, 1, 2, 127, 128, 129, 255, 256, 300, 16384], vec![0, 1, 2, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385]);
    let kinds = ["items", "nested", "entries", "classes", "name", "text", "eval", "parent", "deep", "bytes"];
    ck.explore("sizes", "number of items, nested items, entries and classes, lengths of names, texts, expressions and parents, and depth of classes, around every border of their encodings, in first, middle and last place", product(&kinds, &ns).into_iter().flat_map(|(k, n)| (0..3).map(move |at| (k, n, at))), |&(k, n, at), o| {
        let x = |s: &str, n: usize| s.repeat(n);
        let big = match k {
            "items" => P::Array("big".into(), false, (0..n).map(|i| V::I(i as i64)).collect()),
            "nested" => P::Array("big".into(), true, vec![V::A((0..n).map(|_| V::A(vec![])).collect()), V::S("end".into())]),
            "entries" => P::Class("big".into(), None, (0..n.min(2000)).map(|i| P::Entry(format!("e{i}"), V::I(i as i64))).collect()),
            "classes" => P::Class("big".into(), None, (0..n.min(300)).map(|i| P::Class(format!("c{i}"), None, vec![P::Entry("x".into(), V::S("y".into()))])).collect()),
            "name" => { if n == 0 { return Ok(()); } P::Class(x("n", n), None, vec![P::Entry(x("m", n), V::I(1))]) }
            "text" => P::Entry("big".into(), V::S(x("é", n))),
            "bytes" => P::Class("big".into(), None, (0..n / 256).map(|i| P::Entry(format!("e{i}"), V::S(x("long text ", 2000)))).collect()),
            "eval" => { if n == 0 { return Ok(()); } P::Entry("big".into(), V::E(x("1", n))) }
            "parent" => { if n == 0 { return Ok(()); } P::Class("big".into(), Some(x("p", n)), vec![P::Delete("z".into())]) }
            _ => (0..n.min(20)).fold(P::Class("leaf".into(), None, vec![P::Entry("x".into(), V::I(5))]), |p, i| P::Class(format!("d{i}"), None, vec![P::Delete("before".into()), p, P::Entry("after".into(), V::I(i as i64))])),
        };
        let mut p = vec![P::Class("First".into(), None, vec![P::Entry("x".into(), V::I(1))]), P::Class("Last".into(), Some("First".into()), vec![P::Class("In".into(), None, vec![])])];
        p.insert(at, big);
        means(&text_of(&p), &p, o)
    });
    // white space and comments between all tokens
    let toks = ["class", " A", ";", "class", " B", ":", "A", "{", "a", "=", "1", ";", "b", "[]", "=", "{", "\"s\"", ",", "{", "-2", ",", "0.5", "}", ",", "}", ";", "c", "[]", "+=", "{", "}", ";", "delete", " D", ";", "e", "=", "__EVAL(x)", ";", "f", "=", "\"x\"", "\\n", "\"y\"", ";", "}", ";"];
    let want = ref_parse(&toks.join(" ")).map_err(|_| "").unwrap();
    let gaps = ["", " ", "  ", "\t", "\n", "\r\n", "/* c */", "// c\n", "\\\n", " \t\n "];
    ck.explore("space", "a config with every construct x every gap between its tokens (quick: and its neighbour; thorough: every pair) x ten kinds of white space and comments: the same config", 0..toks.len(), |&i, o| {
        let pairs: Vec<usize> = if ck.quick() { vec![i, i + 1] } else { (i..toks.len()).collect() };
        for g in gaps { for &j in &pairs { for h in gaps {
            if j == i && h != gaps[0] { continue; }
            let mut s = String::new();
            for (k, t) in toks.iter().enumerate() {
                let gap = if k == i { g } else if k == j { h } else { "" };
                // a macro-like name must not grow together with the next word
                s += gap;
                s += if k > 0 && (toks[k - 1] == "class" || toks[k - 1] == "delete") && !gap.is_empty() && gap.starts_with([' ', '\t', '\n', '\r']) { t.trim_start() } else { t };
            }
            means(&s, &want, o)?;
        } } }
        Ok(())
    });
}

// ------------------------------------------------------------------ D02 values
pub fn value_check(ck: &Ck) {
    ck.assume("numbers in expressions are the shortest decimal of their 32-bit float; expressions are computed with 64-bit floats; whether a sign may stand apart from its number or before a parenthesis is left open");
    let lits = ["0", "1", "-1", "7", "007", "127", "128", "255", "256", "32768", "65536", "2147483647", "2147483648", "-2147483647", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775807", "0x0", "0x1A", "0xff", "0xFFFFFFFF", "-0x10", "0x7fffffff", "0x80000000", "0.5", "-0.5", ".5", "-.25", "1.0", "2.00", "3.14", "0.1", "16777217.0", "1e3", "1E-3", "-1.5e+2", "123.456e-7", "1e10", "3.4e38", "1e-40", "0.0", "-0.0", "100000000.0"];
    let after = ["", " ", "  ", "\t", "\n", "\r\n", " \n", "/* c */", " /* c */ ", "// c\n", " // c\n"];
    ck.explore("numbers", "every significant number x what stands after it x its place (value, expanded from a macro, first, middle and last item, nested item): exactly that number, floats as floats and integers as integers", product(&lits, &after), |&(l, a), o| {
        let (v, n) = num_lit(l).ok_or("literal")?;
        ensure_eq!(n, l.len(), "literal");
        let e = |v: &V| P::Entry("x".into(), v.clone());
        let arr = |v: Vec<V>| P::Array("x".into(), false, v);
        means(&format!("x = {l}{a};\n"), &[e(&v)], o)?;
        means(&format!("x={l}{a};y=1;\n"), &[e(&v), P::Entry("y".into(), V::I(1))], o)?;
        means(&format!("#define N {l}\nx = N{a};\n"), &[e(&v)], o)?;
        means(&format!("x[] = {{{l}{a}}};\n"), &[arr(vec![v.clone()])], o)?;
        means(&format!("x[] = {{{l}{a},{l}{a}, {l}{a},}};\n"), &[arr(vec![v.clone(), v.clone(), v.clone()])], o)?;
        means(&format!("x[] += {{\"s\", {{{l}{a}, 1}}}};\n"), &[P::Array("x".into(), true, vec![V::S("s".into()), V::A(vec![v.clone(), V::I(1)])])], o)
    });
    let al = ["1", "2.5", "-3", "0x10", "+", "-", "*", "/", "%", "^", "(", ")", " "];
    ck.explore("expressions", "every sequence of number, operator, parenthesis and space tokens up to the bound as a value and as an item: its value, or an error that can be shown if it is no expression", seqs(&al, 1, ck.t(5, 6)), |s, o| {
        let t = s.concat();
        judged(&format!("x = {t};"), o)?;
        if s.len() < 5 { judged(&format!("x[] = {{{t}}};"), o)?; }
        Ok(())
    });
    let ops = ["+", "-", "*", "/", "%", "^"];
    let nums = ["0", "1", "3", "2.5", "-2", "2147483647", "-2147483647", "2147483648", "-2147483648", "0x7fffffff", "1e10", "9223372036854775807", "0.1"];
    ck.explore("results", "every pair of significant numbers x operator (x a second operator and number): results beyond 32 and 64 bits, fractions and divisions by zero", product(&nums, &ops), |&(a, op), o| {
        for b in nums {
            judged(&format!("x = {a} {op} {b};"), o)?;
            for op2 in ops { for c in ["2", "0.5", "100000"] { judged(&format!("x = {a} {op} {b}{op2}{c};"), o)?; judged(&format!("x[] = {{({a} {op} {b}) {op2} {c} , 1}};"), o)?; } }
        }
        Ok(())
    });
    let chars = ["a", "\"", "\\", "\n", "é", "'", "{", ";", "//", "/*", "#", " ", "n", ",", "$"];
    ck.explore("texts", "every text of up to the bound of significant characters, quoted, as a value and an item", seqs(&chars, 0, ck.t(5, 6)), |s, o| {
        let t = s.concat();
        // joined lines; what a join leaves behind may be joined again
        let w = t.replace("\\\n", "");
        if w.contains("\\\n") { return judged_loose(&format!("x = \"{}\";\n", t.replace('"', "\"\"")), o); }
        let w = V::S(w);
        let q = t.replace('"', "\"\"");
        means(&format!("x = \"{q}\";y[] = {{\"{q}\", {{\"{q}\"}}}};\n"), &[P::Entry("x".into(), w.clone()), P::Array("y".into(), false, vec![w.clone(), V::A(vec![w])])], o)
    });
    let segs = ["", "a", "\\", "\"", "b\\", "\\n", "\n"];
    let joins = ["\\n", " \\n ", "\n\\n\n", "\t\\n", "/* c */ \\n"];
    ck.explore("lines", "every text of up to 3 (thorough: 4) segments x how they are joined: the segments with line ends between them", product(&seqs(&segs, 1, ck.t(3, 4)).collect::<Vec<_>>(), &joins), |(v, j), o| {
        let want: Vec<String> = v.iter().map(|x| (*x).to_string()).collect();
        let text = v.iter().map(|x| format!("\"{}\"", x.replace('"', "\"\""))).collect::<Vec<_>>().join(j);
        means(&format!("x = {text};\n"), &[P::Entry("x".into(), V::S(want.join("\n")))], o)?;
        means(&format!("x[] = {{{text}, {text}}};\n"), &[P::Array("x".into(), false, vec![V::S(want.join("\n")), V::S(want.join("\n"))])], o)
    });
    ck.explore("evals", "every sequence of parentheses and other tokens up to the bound after __EVAL: the expression as written, or an error", seqs(&["(", ")", "a", " ", ";", "1", ","], 0, ck.t(7, 8)), |s, o| judged(&format!("x = __EVAL{};", s.concat()), o));
}

// ------------------------------------------------------------------ D03 acceptance
const FULL: &str = "class E;\nclass A: E {\n  x = 1;\n  y[] = {1, \"s\", {2.5, -3},};\n  z[] += {\"q\"};\n  delete D;\n  e = __EVAL(1 + (2));\n  m = \"a\" \\n \"b\";\n  class In { k = (1 + 2) * 3; };\n};\n";
pub fn accept_check(ck: &Ck) {
    ck.hang_secs(60);
    let join = |s: &[&str]| s.join(" ");
    let al = ["class A", "class B", "delete D", ": A", "{", "}", ";", "x", "[]", "=", "+=", "1", "\"s\"", ","];
    ck.explore("tokens", "every sequence of tokens up to the bound: accepted exactly if it is a config, as what it says, otherwise with errors that can be shown", seqs(&al, 0, ck.t(5, 6)), |s, o| judged(&join(s), o));
    ck.explore("class", "every sequence of tokens up to the bound inside of a class, closed and not closed", seqs(&al, 0, ck.t(3, 4)), |s, o| { let t = join(s); judged(&format!("class A {{ {t} }};"), o)?; judged(&format!("class A; class B: A {{ y = 1; {t}"), o)?; judged(&format!("class A {{ class B {{ {t} }}; }}; z = 2;"), o) });
    let val = ["{", "}", ",", "1", "\"s\"", ";", "(", "-", "\"", "x", "\n", "\\n"];
    ck.explore("values", "every sequence of value tokens up to the bound after =, [] = and [] +=", seqs(&val, 0, ck.t(4, 5)), |s, o| { let t = s.concat(); for lead in ["x = ", "x[] = ", "x[] += ", "x[] "] { judged(&format!("{lead}{t};"), o)?; } Ok(()) });
    // edits of a full config
    let toks: Vec<String> = { let mut v: Vec<String> = vec![]; let mut cur = String::new(); for c in FULL.chars() { if c.is_ascii_alphanumeric() || c == '_' || c == '.' { cur.push(c); } else { if !cur.is_empty() { v.push(std::mem::take(&mut cur)); } v.push(c.to_string()); } } v };
    let ins = ["", ";", "{", "}", ",", "\"", "=", "[]", "+=", ":", "class ", "1", "x", " ", "\n", "é", "'", "(", ")", "\\", "#"];
    ck.explore("edits", "a config with every construct, each of its tokens replaced by, and each place between them filled with, every token (thorough: at every pair of places)", 0..=toks.len(), |&i, o| {
        let mut go = |v: Vec<&str>| -> R { let s = v.concat(); if super::pre::project(&[("config.cpp", &s)]).ok().and_then(|w| run_file(&w, "config.cpp").ok()).is_none_or(|p| p.as_str() != s) { return Ok(()); } judged_loose(&s, o) };
        for t in ins {
            let mut v: Vec<&str> = toks.iter().map(String::as_str).collect();
            v.insert(i, t);
            go(v.clone())?;
            if i < toks.len() { v.remove(i + 1); go(v.clone())?; }
            if !ck.quick() { for j in i + 1..v.len() { for u in ["", ";", "}", "{", "\"", ","] { let mut w = v.clone(); w[j] = u; go(w)?; } } }
        }
        if i < toks.len() { let v: Vec<&str> = toks.iter().take(i).map(String::as_str).collect(); go(v)?; let v: Vec<&str> = toks.iter().skip(i).map(String::as_str).collect(); go(v)?; }
        Ok(())
    });
    let deep = ck.t(vec![1usize, 2, 5, 10, 20, 40], vec![1, 2, 5, 10, 20, 40, 60, 80, 100]);
    ck.explore("depth", "classes, arrays, parentheses and evals within one another up to the bound, complete and broken at the innermost place or at the end: a result or an error in time", product(&deep, &["class", "array", "paren", "eval", "item"]), |&(n, k), o| {
        let (open, mid, close, tail) = match k { "class" => ("class C {", "x = 1;", "};", ""), "array" => ("{", "1", "}", ";"), "paren" => ("(", "1 + 1", ")", ";"), "eval" => ("(", "1", ")", ";"), _ => ("{1,", "{}", "}", ";") };
        let lead = match k { "class" => "", "array" | "item" => "y[] = ", "paren" => "y = ", _ => "y = __EVAL" };
        for m in [mid, "", "1 1", "@", "{", ";"] { for c in [n, n - 1, 0, n + 1] { judged_loose(&format!("{lead}{}{m}{}{tail}", open.repeat(n), close.repeat(c)), o)?; } }
        Ok(())
    });
}
/// As `judged`; texts that hold characters outside of the grammar only have to end with a result or an error
fn judged_loose(text: &str, o: &mut Obs) -> R {
    if text.contains(['\'', '#', 'é']) || text.contains("class ;") || text.contains("delete ;") {
        let r = run_text(text)?;
        o.steps(1);
        r.shown().map_err(|e| format!("{text:?}: {e}"))?;
        if r.syntax().is_empty() { derap(&r.rap()?).map_err(|e| format!("{text:?}: {e}"))?; }
        return Ok(());
    }
    judged(text, o)
}

// ------------------------------------------------------------------ D04 lints
use std::ops::Range;
/// What is reported: identifier, primary label, secondary labels
type Found = (String, Option<(usize, usize)>, Vec<(usize, usize)>);
#[derive(Clone, Copy, Debug, PartialEq)]
enum L { External(&'static str), Open(&'static str, Option<&'static str>), Close, NoSemi(&'static str), NoSemiClass(&'static str), NoBraces(&'static str, &'static str), Num(&'static str), Arr(&'static str), Unexpected(&'static str), Expected(&'static str), Invalid(&'static str), BadItem(&'static str) }
struct Node { l: L, name: Range<usize>, parent: Range<usize>, value: Range<usize>, end: usize, kids: Vec<Node> }
fn name_of(l: L) -> &'static str { match l { L::External(n) | L::Open(n, _) | L::NoSemi(n) | L::NoSemiClass(n) | L::NoBraces(n, _) | L::Num(n) | L::Arr(n) | L::Unexpected(n) | L::Expected(n) | L::Invalid(n) | L::BadItem(n) => n, L::Close => "" } }
fn put(s: &mut String, t: &str) -> Range<usize> { let a = s.len(); *s += t; a..s.len() }
fn write_nodes(l: &[L], i: &mut usize, s: &mut String, sep: &str) -> Vec<Node> {
    let mut out = vec![];
    while *i < l.len() {
        let x = l[*i];
        *i += 1;
        if x == L::Close { return out; }
        let mut n = Node { l: x, name: 0..0, parent: 0..0, value: 0..0, end: 0, kids: vec![] };
        if matches!(x, L::External(_) | L::Open(..) | L::NoSemiClass(_) | L::NoBraces(..)) { *s += "class "; }
        n.name = put(s, name_of(x));
        let mut semi = true;
        match x {
            L::External(_) | L::Close => {}
            L::Open(_, p) => { if let Some(p) = p { *s += ": "; n.parent = put(s, p); } *s += " {"; *s += sep; n.kids = write_nodes(l, i, s, sep); *s += "}"; }
            L::NoBraces(_, p) => { *s += ": "; n.parent = put(s, p); }
            L::NoSemi(_) => { *s += " = "; n.value = put(s, "\"é}\""); semi = false; }
            L::NoSemiClass(_) => { *s += " {"; *s += sep; *s += "}"; semi = false; }
            L::Num(_) => { *s += " = "; n.value = put(s, "1"); }
            L::Arr(_) => { *s += "[] = "; n.value = put(s, "{1,{}}"); }
            L::Unexpected(_) => { *s += " = "; n.value = put(s, "{\"é\",2}"); }
            L::Expected(_) => { *s += "[] = "; n.value = put(s, "\"é]\""); }
            L::Invalid(_) => { *s += " = "; n.value = put(s, "foo"); }
            L::BadItem(_) => { *s += "[] = {1, "; n.value = put(s, "foo"); *s += ", 2}"; }
        }
        n.end = s.len();
        if semi { s.push(';'); }
        *s += sep;
        out.push(n);
    }
    out
}
fn sp(r: &Range<usize>) -> Option<(usize, usize)> { Some((r.start, r.end)) }
/// Everything that has to be reported, and the codes that are left open
fn lint_model(top: &[Node]) -> (Vec<Found>, BTreeSet<(String, usize)>) {
    let (mut must, mut open) = (vec![], BTreeSet::new());
    let mut paths: BTreeMap<String, Vec<(bool, Range<usize>)>> = BTreeMap::new();
    fn local(l: L) -> bool { matches!(l, L::Open(..) | L::NoBraces(..)) }
    fn dups(ns: &[Node], at: &str, m: &mut BTreeMap<String, Vec<(bool, Range<usize>)>>) {
        for n in ns {
            let p = format!("{at}.{}", name_of(n.l).to_lowercase());
            if local(n.l) { dups(&n.kids, &p, m); m.entry(p).or_default().push((true, n.name.clone())); } else if !matches!(n.l, L::External(_)) { m.entry(p).or_default().push((false, n.name.clone())); }
        }
    }
    dups(top, "", &mut paths);
    for v in paths.into_values() {
        if v.len() > 1 && !v.iter().all(|x| x.0) { let (last, rest) = v.split_last().unwrap(); must.push(("L-C02".to_string(), sp(&last.1), rest.iter().filter_map(|r| sp(&r.1)).collect())); }
    }
    // scopes: per scope the classes defined so far; all: every class defined so far, in any scope
    fn walk<'a>(ns: &'a [Node], scopes: &mut Vec<Vec<&'a Node>>, all: &mut Vec<&'a Node>, must: &mut Vec<Found>, open: &mut BTreeSet<(String, usize)>) {
        scopes.push(vec![]);
        let mut classes: Vec<(String, Vec<Range<usize>>)> = vec![];
        for n in ns {
            let nm = name_of(n.l);
            if local(n.l) || matches!(n.l, L::External(_)) {
                let key = nm.to_lowercase();
                match classes.iter_mut().find(|c| c.0 == key) { Some(c) => c.1.push(n.name.clone()), None => classes.push((key, vec![n.name.clone()])) }
            }
            match n.l {
                L::Open(_, Some(p)) | L::NoBraces(_, p) => {
                    if matches!(n.l, L::NoBraces(..)) { must.push(("L-C10".into(), Some((n.parent.end, n.parent.end)), vec![])); }
                    let key = p.to_lowercase();
                    let at = n.parent.start;
                    if key == nm.to_lowercase() {
                        // inherits from what the parent of the scope defines
                        if p != nm { must.push(("L-C05".into(), sp(&n.parent), vec![(n.name.start, n.name.end)])); }
                    } else {
                        let earlier: Vec<&&Node> = all.iter().filter(|m| name_of(m.l).to_lowercase() == key).collect();
                        let visible = scopes.iter().flatten().any(|m| name_of(m.l).to_lowercase() == key);
                        if earlier.is_empty() { must.push(("L-C04".into(), sp(&n.parent), vec![])); } else if !visible { open.insert(("L-C04".to_string(), at)); }
                        let spelled: BTreeSet<&str> = earlier.iter().map(|m| name_of(m.l)).collect();
                        if spelled.len() > 1 { open.insert(("L-C05".to_string(), at)); }
                        else if spelled.iter().any(|s| *s != p) {
                            if !visible || earlier.len() > 1 { open.insert(("L-C05".to_string(), at)); } else { must.push(("L-C05".into(), sp(&n.parent), vec![(earlier[0].name.start, earlier[0].name.end)])); }
                        }
                    }
                }
                L::NoSemi(_) | L::NoSemiClass(_) => must.push(("L-C08".into(), Some((n.end, n.end)), vec![])),
                L::Unexpected(_) => must.push(("L-C06".into(), sp(&n.name), vec![(n.value.start, n.value.end)])),
                L::Expected(_) => must.push(("L-C07".into(), Some((n.name.start, n.name.end + 2)), vec![(n.value.start, n.value.end)])),
                L::Invalid(_) | L::BadItem(_) => must.push(("L-C01".into(), sp(&n.value), vec![])),
                _ => {}
            }
            if local(n.l) || matches!(n.l, L::External(_)) { scopes.last_mut().unwrap().push(n); all.push(n); }
            if local(n.l) { walk(&n.kids, scopes, all, must, open); }
        }
        scopes.pop();
        for (_, v) in classes { if v.len() > 1 { must.push(("L-C03".into(), sp(&v[0]), v[1..].iter().filter_map(sp).collect())); } }
    }
    walk(top, &mut vec![], &mut vec![], &mut must, &mut open);
    (must, open)
}
/// What is reported, as places in the file
fn found(codes: &[std::sync::Arc<dyn Code>], file: &str, shift: usize) -> Result<Vec<Found>, String> {
    let mut out = vec![];
    for c in codes {
        let d = c.diagnostic().ok_or_else(|| format!("{} can not be shown", c.ident()))?;
        show(&**c)?;
        ensure_eq!(d.code, c.ident(), "code of the diagnostic");
        if c.ident() != "L-C05" { ensure_eq!(c.severity(), Severity::Error, "severity of {}", c.ident()); }
        let (mut first, mut rest) = (None, vec![]);
        for l in &d.labels {
            ensure!(l.file().as_str().ends_with(file), "{} points to {}", c.ident(), l.file().as_str());
            let cs = l.to_codespan();
            let r = (cs.range.start.wrapping_sub(shift), cs.range.end.wrapping_sub(shift));
            if cs.style == codespan_reporting::diagnostic::LabelStyle::Primary { ensure!(first.is_none(), "{} has two primary labels", c.ident()); first = Some(r); } else { rest.push(r); }
        }
        rest.sort_unstable();
        out.push((c.ident().to_string(), first, rest));
    }
    Ok(out)
}
fn differ(got: &[Found], must: &[Found], open: &BTreeSet<(String, usize)>) -> Option<String> {
    let mut left: Vec<&Found> = got.iter().collect();
    for m in must {
        let mut want = m.clone();
        want.2.sort_unstable();
        match left.iter().position(|g| **g == want) { Some(i) => { left.remove(i); } None => return Some(format!("{want:?} is not reported")) }
    }
    let mut seen = BTreeSet::new();
    for g in left {
        let k = (g.0.clone(), g.1.map_or(0, |x| x.0));
        if !open.contains(&k) || !seen.insert(k) { return Some(format!("{g:?} is reported")); }
    }
    None
}
pub fn lint_check(ck: &Ck) {
    ck.assume("a parent that is defined earlier, but in a scope from which it may not be visible, is left open (it can be inherited), as is its spelling when there are several");
    use L::{Arr, BadItem, Close, Expected, External, Invalid, NoBraces, NoSemi, NoSemiClass, Num, Open, Unexpected};
    let small = [External("A"), External("b"), Open("A", None), Open("B", None), Open("a", Some("A")), Open("C", Some("a")), Open("C", Some("B")), NoBraces("B", "A"), Num("A"), Num("b"), Arr("a"), NoSemi("B"), Close];
    let rest = [External("B"), Open("a", None), Open("B", Some("b")), NoSemiClass("A"), Unexpected("A"), Expected("b"), Invalid("B"), BadItem("a")];
    let ok = |s: &Vec<L>| { let mut d = 0i32; for x in s { match x { Close => { d -= 1; if d < 0 { return false; } } Open(..) => d += 1, _ => {} } } d == 0 };
    let full: Vec<L> = small.iter().chain(&rest).copied().collect();
    let run = |s: &[L], lead: usize, sep: &str, o: &mut Obs| -> R {
        let mut t = String::new();
        let nodes = write_nodes(s, &mut 0, &mut t, sep);
        if !t.ends_with('\n') { t.push('\n'); }
        let (must, open) = lint_model(&nodes);
        let leads = ["", "é = \"éé\"; ", "/* é */\n", "#include \"h.hpp\"\n", "#define M é = 5;\nM "];
        let text = format!("{}{t}", leads[lead]);
        let files = [("config.cpp", text.as_str()), ("h.hpp", "hh = \"long enough to matter\";\nclass ZZ {};\n"), ("k.hpp", "")];
        // names beyond ASCII are no names: keep the lead valid
        let text2 = text.replacen("é =", "e =", 1);
        let files = if lead == 1 || lead == 4 { [("config.cpp", text2.as_str()), files[1], files[2]] } else { files };
        let shift = files[0].1.len() - t.len();
        let r = run_files(&files)?;
        o.steps(1);
        ensure!(r.report.is_ok(), "{:?} is refused: {:?}", files[0].1, r.errors());
        // each is told once, as a warning or as an error
        let by = |v: Vec<&std::sync::Arc<dyn Code>>| v.iter().map(|c| c.ident()).collect::<Vec<_>>();
        let of = |x: Severity| r.codes().iter().filter(|c| c.severity() == x).map(|c| c.ident()).collect::<Vec<_>>();
        if let Ok(x) = &r.report { ensure_eq!((by(x.warnings()), by(x.errors())), (of(Severity::Warning), of(Severity::Error)), "warnings and errors"); }
        let got = found(r.codes(), "config.cpp", shift).map_err(|e| format!("{:?}: {e}", files[0].1))?;
        if let Some(e) = differ(&got, &must, &open) { return Err(format!("{:?}: {e}; got {got:?}, expected {must:?}", files[0].1)); }
        // once more: the same, in the same order
        let again = no_panic(|| hemtt_config::parse(None, &r.processed))?;
        let again = found(match &again { Ok(r) => r.codes(), Err(c) => c }, "config.cpp", shift)?;
        ensure!(again == got, "{:?} is reported as {got:?}, then as {again:?}", files[0].1);
        if r.errors().iter().all(|e| matches!(*e, "L-C02" | "L-C03" | "L-C04" | "L-C10")) { derap(&r.rap()?)?; }
        o.state(got.iter().map(|g| g.0.as_str()).collect::<Vec<_>>().join(" "));
        Ok(())
    };
    ck.explore("trees", "every tree of classes, entries and mistakes of the bound over names that differ in case: exactly each mistake is reported once, at its place, with the other places involved, in the same order every time", seqs(&full, 0, ck.t(4, 5)).filter(ok).enumerate(), |(i, s), o| { run(s, i % 5, if i % 2 == 0 { "\n" } else { " " }, o) });
    ck.explore("inheritance", "longer trees over the classes alone", seqs(&[External("A"), Open("A", None), Open("a", Some("A")), Open("C", Some("a")), Open("C", Some("A")), Open("D", Some("C")), Close], 4, ck.t(7, 9)).filter(ok), |s, o| run(s, 0, "\n", o));
    ck.explore("leads", "every mistake pair after every kind of text before it, in one and in several lines", product(&seqs(&full, 1, 3).filter(ok).collect::<Vec<_>>(), &(0..5usize).collect::<Vec<_>>()), |(s, l), o| { run(s, *l, "\n", o)?; run(s, *l, " ", o) });
    // mistakes that come from macros and includes: reported and shown
    let bits = ["N", "D(a)", "I(A)", "V", "{V}", "P", "A"];
    let pieces: Vec<String> = bits[..3].iter().chain(["A", "a"].iter()).flat_map(|n| [format!("class {n};"), format!("class {n} {{}};"), format!("class C: {n} {{}};"), format!("class C: {n};"), format!("{n} = V;"), format!("{n} = {{V}};"), format!("{n}[] = V;"), format!("{n} = 1"), format!("{n} = bad;"), format!("{n}[] = {{W, 1}};")]).chain(["P", "Q", "#include \"k.hpp\"\n"].map(String::from)).collect();
    ck.explore("macros", "every pair (thorough: triple) of classes, entries and mistakes whose names and values come from macros, glued names and included files: reported the same every time and shown", seqs(&pieces.iter().map(String::as_str).collect::<Vec<_>>(), 1, ck.t(2, 3)), |v, o| {
        for end in ["\n", ""] {
            let t = format!("#define N longername\n#define D(x) x##longer\n#define I(x) x\n#define V 5\n#define W wrong\n#define P class A {{ x = {{1}}; y[] = 2; z = 1 }}\n#define Q A = 1; class A;\n{}{end}", v.concat());
            let r = run_files(&[("config.cpp", t.as_str()), ("k.hpp", "class A { q = {1} };\n"), ("h.hpp", "")])?;
            r.shown().map_err(|e| format!("{t:?}: {e}"))?;
            let list = |c: &[std::sync::Arc<dyn Code>]| -> Vec<String> { c.iter().map(|c| format!("{} {:?}", c.ident(), c.diagnostic().map(|d| d.labels.iter().map(|l| l.to_codespan().range).collect::<Vec<_>>()))).collect() };
            let a = list(r.codes());
            let b = match no_panic(|| hemtt_config::parse(None, &r.processed))? { Ok(r) => list(r.codes()), Err(c) => list(&c) };
            ensure_eq!(a, b, "{t:?} reported again");
            if r.errors().is_empty() { derap(&r.rap()?)?; }
            o.steps(1);
            o.state(a.iter().map(|s| &s[..5.min(s.len())]).collect::<Vec<_>>());
        }
        Ok(())
    });
    // the one lint of these whose severity can be changed
    ck.explore("severity", "every severity the lint for the case of a parent can be given: it is reported with it, and not at all when it is disabled", ["default", "Error", "Warning", "Help", "off"].into_iter(), |s, o| {
        o.steps(1);
        let lint = match *s { "default" => String::new(), "off" => "external_parent_case = false\n".into(), s => format!("external_parent_case = \"{s}\"\n") };
        let pc = super::common::project(&format!("[lints.config]\n{lint}"))?;
        let ws = super::pre::project(&[("config.cpp", "class Base {};\nclass New: base {};\n")])?;
        let p = run_file(&ws, "config.cpp").map_err(|e| e.to_string())?;
        let r = no_panic(|| hemtt_config::parse(Some(&pc), &p))?.map_err(|_| "refused")?;
        let got: Vec<(&str, Severity)> = r.codes().iter().map(|c| (c.ident(), c.severity())).collect();
        let want = match *s { "Error" => Some(Severity::Error), "Help" => Some(Severity::Help), "off" => None, _ => Some(Severity::Warning) };
        ensure_eq!(got, want.map(|w| ("L-C05", w)).into_iter().collect::<Vec<_>>(), "with the severity {s}");
        Ok(())
    });
    // magazines
    let pool = ["abe_x", "ABE_y", "abe_z", "other", "ab"];
    let project = hemtt_common::config::ProjectConfig::test_project();
    ck.explore("magazines", "every set of magazines x every list of wells over names of the project and of others x order and case of the two classes: exactly those of the project that are missing are reported", product(&subsets(&pool, 0, 5), &seqs(&["abe_x", "ABE_y", "abe_w", "other", "aBe"], 0, ck.t(3, 4)).collect::<Vec<_>>()), |(mags, wells), o| {
        for order in 0..4 {
            let m = format!("class {} {{\n{}}};\n", ["CfgMagazines", "CFGMAGAZINES"][order % 2], mags.iter().map(|m| format!("class {m} {{}};\n")).collect::<String>());
            let mut w = format!("class {} {{\n class well {{\n  main[] = {{", ["CfgMagazineWells", "cfgmagazinewells"][order % 2]);
            let mut at = vec![];
            for (i, x) in wells.iter().enumerate() { if i > 0 { w += ", "; } let a = w.len(); w += &format!("\"{x}\""); at.push((a, w.len())); }
            w += "};\n  other[] += {5, {\"abe_nested\"}};\n };\n};\n";
            let (t, shift) = if order < 2 { let s = m.len(); (m + &w, s) } else { (w + &m, 0) };
            let ws = super::pre::project(&[("config.cpp", t.as_str())])?;
            let p = run_file(&ws, "config.cpp").map_err(|e| e.to_string())?;
            let r = no_panic(|| hemtt_config::parse(Some(&project), &p))?.map_err(|c| format!("{t} is refused: {}", c.len()))?;
            o.steps(1);
            let mut got = vec![];
            for c in r.codes() {
                ensure_eq!(c.ident(), "L-C09", "{t}");
                show(&**c)?;
                let d = c.diagnostic().ok_or("no diagnostic")?;
                let r = d.labels[0].to_codespan().range;
                got.push((r.start - shift, r.end - shift));
            }
            let want: Vec<(usize, usize)> = wells.iter().zip(&at).filter(|(x, _)| x.to_lowercase().starts_with("abe") && !mags.contains(x)).map(|x| *x.1).collect();
            ensure_eq!(got, want, "{t}");
            o.state(got.len());
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ D05 patches
pub fn patch_check(ck: &Ck) {
    use hemtt_common::version::Version;
    ck.assume("a required version is a number; with a text or none it is 0.0");
    let vers: [(&str, Option<(u32, u32)>); 12] = [("0.1", Some((0, 10))), ("1.0", Some((1, 0))), ("2.14", Some((2, 14))), ("2.02", Some((2, 2))), ("2", Some((2, 0))), ("1.999", Some((2, 0))), ("1.5 ", Some((1, 50))), ("1.96 + 0.04", Some((2, 0))), ("\"2.0\"", None), ("0x2", Some((2, 0))), ("-1", None), ("0", None)];
    let forms: Vec<(String, Vec<(String, Option<(u32, u32)>)>)> = {
        let mut v = vec![(String::new(), vec![])];
        for (i, (t, w)) in vers.iter().enumerate() {
            let key = ["requiredVersion", "REQUIREDVERSION", "requiredversion"][i % 3];
            v.push((format!("class p{i} {{ units[] = {{}}; {key} = {t}; }};"), vec![(format!("p{i}"), *w)]));
        }
        v.push(("class none { name = 5.0; };".into(), vec![("none".into(), None)]));
        v.push(("class nest { class in { requiredVersion = 9.0; }; };".into(), vec![("nest".into(), None)]));
        v.push(("class E; value = 9.0; requiredVersion = 9.5;".into(), vec![]));
        v
    };
    ck.explore("patches", "every one to three patches over thirteen ways to give the required version, in CfgPatches of any case, twice, nested or elsewhere: exactly the patches with their versions, and the highest of them", seqs(&(0..forms.len()).collect::<Vec<_>>(), 1, ck.t(3, 4)), |v, o| {
        for (k, head) in ["CfgPatches", "CFGPATCHES", "cfgpatches", "CfgVehicles", "Outer"].iter().enumerate() {
            let body: String = v.iter().map(|i| forms[*i].0.as_str()).collect();
            let t = match k { 4 => format!("class Outer {{ class CfgPatches {{ {body} }}; }};"), 2 => format!("x = 1; class Other {{ requiredVersion = 9.0; }};\nclass {head} {{ {body} }};"), _ => format!("class {head} {{ {body} }};") };
            let r = run_text(&t)?;
            o.steps(1);
            let r = r.report.map_err(|_| format!("{t} is refused"))?;
            let want: Vec<(String, Version)> = if k >= 3 { vec![] } else { v.iter().flat_map(|i| forms[*i].1.clone()).map(|(n, w)| { let (a, b) = w.unwrap_or((0, 0)); (n, Version::new(a, b, 0, None)) }).collect() };
            let got: Vec<(String, Version)> = r.patches().iter().map(|p| (p.name().as_str().to_string(), p.required_version().clone())).collect();
            ensure_eq!(got, want, "{t}");
            let (ver, patch) = r.required_version();
            let mut best: Option<&(String, Version)> = None;
            for w in &want { if w.1 > best.map_or(Version::new(0, 0, 0, None), |b| b.1.clone()) { best = Some(w); } }
            ensure_eq!((ver, patch.map(|p| p.name().as_str().to_string())), (best.map_or(Version::new(0, 0, 0, None), |b| b.1.clone()), best.map(|b| b.0.clone())), "highest of {t}");
            o.state(format!("{got:?}"));
        }
        Ok(())
    });
}
