//! SQF scripts. X01: a script is read as the language says. X02: the compiled script is the
//! script. X03: optimizing a script does not change what it does.
use std::sync::LazyLock;

use hemtt_sqf::parser::{database::Database, ParserError};
use hemtt_sqf::{BinaryCommand, Expression, Statement, Statements, UnaryCommand};
use hemtt_workspace::reporting::Processed;

use super::pre::{project, run_file, show};
use crate::fw::*;
use crate::{ensure, ensure_eq};

const NULAR: &[&str] = &["player", "objNull", "nil"];
const UNARY: &[&str] = &["str", "private", "if", "count", "call", "not", "params", "param", "random", "positionCameraToWorld", "sqrt", "toLower", "toUpper", "toLowerANSI", "toUpperANSI", "systemChat"];
const BINARY: &[&str] = &["then", "select", "count", "call", "param", "params", "getVariable", "setVariable", "getOrDefault", "vectorAdd", "vectorDiff", "vectorCrossProduct", "vectorDotProduct", "random", "set", "pushBack", "isEqualTo"];
const SPECIAL: &[&str] = &["true", "false", "or", "and", "else", "max", "min", "mod", "atan2"];
fn is(list: &[&str], s: &str) -> bool { list.iter().any(|x| x.eq_ignore_ascii_case(s)) }

static DB: LazyLock<Database> = LazyLock::new(|| {
    let mut d = Database::empty(false);
    for c in NULAR { d.add_nular_command(c); }
    for c in UNARY { d.add_unary_command(c); }
    for c in BINARY { d.add_binary_command(c); }
    d
});

// ---------------------------------------------------------------- reference: tokens

#[derive(Clone, Debug, PartialEq)]
pub enum Tk { Num(f32), Str(String), Id(String), Op(&'static str) }
#[derive(Clone, Debug)]
pub struct Tok { t: Tk, a: usize, b: usize }
const OPS: &[&str] = &["&&", "||", "==", "!=", ">>", ">=", "<=", ">", "<", "!", "+", "-", "*", "/", "%", "^", "=", ":", "#", ";", ",", "[", "]", "(", ")", "{", "}"];

/// The tokens of a script: the longest operator, numbers `1`, `1.5`, `.5`, `1e3`, `$ff`, `0xff`,
/// strings in either quotes with doubled quotes inside, names. Two of the last three kinds do
/// not stand together without white space.
pub fn ref_lex(s: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let digits = |mut i: usize| { let s = i; while at(i).is_ascii_digit() { i += 1; } (i, i > s) };
    let mut out: Vec<Tok> = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() { i += 1; continue; }
        let mut word = true;
        let (t, e) = if c[i] == '"' || c[i] == '\'' {
            let (q, mut j, mut v) = (c[i], i + 1, String::new());
            loop {
                if j >= c.len() { return None; }
                if c[j] == q {
                    if at(j + 1) == q { v.push(q); j += 2; continue; }
                    break;
                }
                v.push(c[j]);
                j += 1;
            }
            (Tk::Str(v), j + 1)
        } else if c[i].is_ascii_alphabetic() || c[i] == '_' {
            let mut j = i;
            while at(j).is_ascii_alphanumeric() || at(j) == '_' { j += 1; }
            (Tk::Id(c[i..j].iter().collect()), j)
        } else if c[i] == '$' || (c[i] == '0' && at(i + 1) == 'x') {
            let s = if c[i] == '$' { i + 1 } else { i + 2 };
            let mut j = s;
            while at(j).is_ascii_hexdigit() { j += 1; }
            if j == s { if c[i] == '$' { return None; } return None; }
            let v = u32::from_str_radix(&c[s..j].iter().collect::<String>(), 16).ok()?;
            (Tk::Num(v as f32), j)
        } else if c[i].is_ascii_digit() || (c[i] == '.' && at(i + 1).is_ascii_digit()) {
            let (mut j, _) = digits(i);
            if at(j) == '.' { let (k, ok) = digits(j + 1); if ok { j = k; } }
            if at(j) == 'e' || at(j) == 'E' {
                let k = if at(j + 1) == '+' || at(j + 1) == '-' { j + 2 } else { j + 1 };
                let (k, ok) = digits(k);
                if ok { j = k; }
            }
            (Tk::Num(c[i..j].iter().collect::<String>().parse().ok()?), j)
        } else {
            word = false;
            let o = OPS.iter().find(|o| o.chars().enumerate().all(|(k, x)| at(i + k) == x))?;
            (Tk::Op(o), i + o.len())
        };
        if word && (at(e).is_ascii_alphanumeric() || at(e) == '_' || at(e) == '"' || at(e) == '\'' || at(e) == '$' || (at(e) == '.' && at(e + 1).is_ascii_digit())) { return None; }
        out.push(Tok { t, a: i, b: e });
        i = e;
    }
    Some(out)
}

// ---------------------------------------------------------------- reference: grammar

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Code(Vec<St>, (usize, usize)),
    Str(String, usize),
    Num(f32, usize),
    Bool(bool, usize),
    /// elements, positions of the brackets
    Arr(Vec<Ex>, (usize, usize)),
    Nul(String, usize),
    Un(String, Box<Ex>, usize),
    Bin(String, Box<Ex>, Box<Ex>, usize),
    Var(String, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum St { Set(String, Ex, (usize, usize)), Local(String, Ex, (usize, usize)), Do(Ex, (usize, usize)) }

struct P<'a> { t: &'a [Tok], i: usize }
impl P<'_> {
    fn op(&self, o: &str) -> bool { matches!(self.t.get(self.i), Some(Tok { t: Tk::Op(x), .. }) if *x == o) }
    fn eat(&mut self, o: &str) -> Option<()> { if self.op(o) { self.i += 1; Some(()) } else { None } }
    fn id(&self) -> Option<&str> { match self.t.get(self.i) { Some(Tok { t: Tk::Id(x), .. }) => Some(x), _ => None } }
    fn at(&self) -> usize { self.t.get(self.i).map_or(usize::MAX, |t| t.a) }
    fn last(&self) -> usize { self.t[self.i - 1].b }
    fn variable(s: &str) -> bool { !is(NULAR, s) && !is(UNARY, s) && !is(BINARY, s) && !is(SPECIAL, s) }

    fn statements(&mut self, end: Option<&str>) -> Option<Vec<St>> {
        let mut v = vec![];
        loop {
            while self.op(";") { self.i += 1; }
            match end { None if self.i == self.t.len() => return Some(v), Some(e) if self.op(e) => return Some(v), _ => {} }
            v.push(self.statement()?);
            match end { None if self.i == self.t.len() => return Some(v), Some(e) if self.op(e) => return Some(v), _ => {} }
            self.eat(";")?;
        }
    }
    fn statement(&mut self) -> Option<St> {
        let start = self.at();
        let local = self.id().is_some_and(|x| x.eq_ignore_ascii_case("private"));
        let k = self.i + usize::from(local);
        if let (Some(Tok { t: Tk::Id(n), .. }), Some(Tok { t: Tk::Op("="), .. })) = (self.t.get(k), self.t.get(k + 1)) {
            if Self::variable(n) {
                let n = n.clone();
                self.i = k + 2;
                let e = self.binary(1)?;
                let span = (start, self.last());
                return Some(if local { St::Local(n, e, span) } else { St::Set(n, e, span) });
            }
        }
        let e = self.binary(1)?;
        Some(St::Do(e, (start, self.last())))
    }
    /// tier of the operator at the cursor and its name
    fn operator(&self) -> Option<(u8, String)> {
        match &self.t.get(self.i)?.t {
            Tk::Op(o) => Some((match *o {
                "||" => 1, "&&" => 2,
                "==" | "!=" | ">" | "<" | ">=" | "<=" | ">>" => 3,
                ":" => 4, "+" | "-" => 6, "*" | "/" | "%" => 7, "^" => 8, "#" => 9,
                _ => return None,
            }, (*o).to_string())),
            Tk::Id(s) => {
                let l = s.to_ascii_lowercase();
                Some(match l.as_str() {
                    "or" => (1, "||".into()), "and" => (2, "&&".into()),
                    "else" => (5, l), "max" | "min" => (6, l), "mod" | "atan2" => (7, l),
                    _ if is(BINARY, s) => (4, s.clone()),
                    _ => return None,
                })
            }
            _ => None,
        }
    }
    fn binary(&mut self, tier: u8) -> Option<Ex> {
        if tier > 9 { return self.unary(); }
        let mut l = self.binary(tier + 1)?;
        while let Some((t, name)) = self.operator() {
            if t != tier { break; }
            let at = self.at();
            self.i += 1;
            let r = self.binary(tier + 1)?;
            l = Ex::Bin(name, Box::new(l), Box::new(r), at);
        }
        Some(l)
    }
    fn unary(&mut self) -> Option<Ex> {
        let at = self.at();
        let name = match &self.t.get(self.i)?.t {
            Tk::Op(o @ ("+" | "-" | "!")) => Some((*o).to_string()),
            Tk::Id(s) if is(UNARY, s) => Some(s.clone()),
            _ => None,
        };
        if let Some(n) = name {
            self.i += 1;
            return Some(Ex::Un(n, Box::new(self.unary()?), at));
        }
        self.value()
    }
    fn value(&mut self) -> Option<Ex> {
        let at = self.at();
        let t = self.t.get(self.i)?.t.clone();
        self.i += 1;
        Some(match t {
            Tk::Num(n) => Ex::Num(n, at),
            Tk::Str(s) => Ex::Str(s, at),
            Tk::Id(s) if s.eq_ignore_ascii_case("true") => Ex::Bool(true, at),
            Tk::Id(s) if s.eq_ignore_ascii_case("false") => Ex::Bool(false, at),
            Tk::Id(s) if is(NULAR, &s) => Ex::Nul(s, at),
            Tk::Id(s) if Self::variable(&s) => Ex::Var(s, at),
            Tk::Id(_) => return None,
            Tk::Op("[") => {
                let mut v = vec![];
                if !self.op("]") {
                    loop {
                        v.push(self.binary(1)?);
                        if self.op("]") { break; }
                        self.eat(",")?;
                    }
                }
                let close = self.at();
                self.i += 1;
                Ex::Arr(v, (at, close))
            }
            Tk::Op("(") => { let e = self.binary(1)?; self.eat(")")?; e }
            Tk::Op("{") => {
                let v = self.statements(Some("}"))?;
                let close = self.at();
                self.i += 1;
                Ex::Code(v, (at, close))
            }
            Tk::Op(_) => return None,
        })
    }
}
pub fn ref_parse(t: &[Tok]) -> Option<Vec<St>> {
    let mut p = P { t, i: 0 };
    p.statements(None)
}

// ---------------------------------------------------------------- HEMTT's tree in the same form

fn un(c: &UnaryCommand) -> String { c.as_str().to_string() }
fn bin(c: &BinaryCommand) -> String { c.as_str().to_string() }
/// `src` = characters of the script: everything is found again where the spans say
fn tree(e: &Expression, src: &[char]) -> Result<Ex, String> {
    let text = |a: usize, b: usize| -> Result<String, String> { src.get(a..b).map(|s| s.iter().collect()).ok_or(format!("span {a}..{b} of a script of {}", src.len())) };
    let word = |r: &std::ops::Range<usize>, w: &str| -> Result<usize, String> {
        let t = text(r.start, r.end)?;
        let same = t.eq_ignore_ascii_case(w) || (t.eq_ignore_ascii_case("or") && w == "||") || (t.eq_ignore_ascii_case("and") && w == "&&");
        ensure!(same, "span {r:?} of {w:?} holds {t:?}");
        Ok(r.start)
    };
    Ok(match e {
        Expression::Code(s) => Ex::Code(trees(s, src)?, (0, 0)),
        Expression::String(s, r, w) => {
            let t = text(r.start, r.end)?;
            let q = w.as_str();
            ensure_eq!(t, format!("{q}{}{q}", s.replace(q, &q.repeat(2))), "span of a string");
            Ex::Str(s.to_string(), r.start)
        }
        Expression::Number(n, r) => {
            ensure!(matches!(ref_lex(&text(r.start, r.end)?).as_deref(), Some([Tok { t: Tk::Num(_), .. }])), "span {r:?} of the number {}", n.0);
            Ex::Num(n.0, r.start)
        }
        Expression::Boolean(b, r) => Ex::Bool(*b, word(r, if *b { "true" } else { "false" })?),
        Expression::Array(v, _) => Ex::Arr(v.iter().map(|x| tree(x, src)).collect::<Result<_, _>>()?, (0, 0)),
        Expression::ConsumeableArray(..) => return Err("the parser made a ConsumeableArray".into()),
        Expression::NularCommand(c, r) => Ex::Nul(c.as_str().to_string(), word(r, c.as_str())?),
        Expression::UnaryCommand(c, x, r) => { let at = word(r, &un(c))?; Ex::Un(un(c), Box::new(tree(x, src)?), at) }
        Expression::BinaryCommand(c, l, x, r) => { let at = word(r, &bin(c))?; Ex::Bin(bin(c), Box::new(tree(l, src)?), Box::new(tree(x, src)?), at) }
        Expression::Variable(n, r) => Ex::Var(n.clone(), word(r, n)?),
    })
}
fn trees(s: &Statements, src: &[char]) -> Result<Vec<St>, String> {
    s.content().iter().map(|s| Ok(match s {
        Statement::AssignGlobal(n, e, r) => St::Set(n.clone(), tree(e, src)?, (r.start, r.end)),
        Statement::AssignLocal(n, e, r) => St::Local(n.clone(), tree(e, src)?, (r.start, r.end)),
        Statement::Expression(e, r) => St::Do(tree(e, src)?, (r.start, r.end)),
    })).collect()
}
/// without the positions of brackets
fn bare(v: &[St]) -> Vec<St> {
    fn ex(e: &Ex) -> Ex {
        match e {
            Ex::Code(v, _) => Ex::Code(bare(v), (0, 0)),
            Ex::Arr(v, _) => Ex::Arr(v.iter().map(ex).collect(), (0, 0)),
            Ex::Un(n, x, a) => Ex::Un(n.clone(), Box::new(ex(x)), *a),
            Ex::Bin(n, l, r, a) => Ex::Bin(n.clone(), Box::new(ex(l)), Box::new(ex(r)), *a),
            o => o.clone(),
        }
    }
    v.iter().map(|s| match s {
        St::Set(n, e, r) => St::Set(n.clone(), ex(e), *r),
        St::Local(n, e, r) => St::Local(n.clone(), ex(e), *r),
        St::Do(e, r) => St::Do(ex(e), *r),
    }).collect()
}

pub fn processed(text: &str) -> Result<Processed, String> {
    let ws = project(&[("a.sqf", text)])?;
    run_file(&ws, "a.sqf").map_err(|e| format!("the preprocessor refuses {text:?}: {e:?}"))
}

/// One script: read alike, or refused alike with an error that can be shown and lies in the script
fn same_reading(text: &str, obs: &mut Obs) -> R {
    let p = processed(text)?;
    let src = p.as_str().to_string();
    let chars: Vec<char> = src.chars().collect();
    let want = ref_lex(&src).map(|t| (ref_parse(&t), t.len()));
    let got = no_panic(|| hemtt_sqf::parser::run(&DB, &p))?;
    obs.steps(chars.len() as u64);
    match (got, want) {
        (Ok(s), Some((Some(w), _))) => {
            let t = trees(&s, &chars)?;
            ensure_eq!(t, bare(&w), "reading of {src:?}");
            ensure_eq!(s.source(), src, "source of the script");
            obs.state(format!("{t:?}"));
            Ok(())
        }
        (Err(e), w) => {
            ensure!(!matches!(w, Some((Some(_), _))), "{src:?} is refused: {:?}", e.codes().iter().map(|c| c.ident()).collect::<Vec<_>>());
            let lexical = matches!(e, ParserError::LexingError(_));
            ensure_eq!(lexical, w.is_none(), "kind of error for {src:?}");
            ensure!(!e.codes().is_empty(), "{src:?} is refused without an error");
            for c in e.codes() {
                show(&**c)?;
                ensure!(c.diagnostic().is_some(), "{} of {src:?} can not be shown", c.ident());
            }
            obs.state(("refused", lexical));
            Ok(())
        }
        (Ok(_), w) => Err(format!("{src:?} is accepted, {}", if w.is_some() { "it is no script" } else { "it has no tokens" })),
    }
}

pub fn x01(ck: &Ck) {
    let full = ["1", "\"s\"", "a", "player", "str", "count", "select", "true", "private", "-", "!", "+", "*", "^", "#", "max", "mod", "else", ":", "==", ">>", "&&", "or", "=", ";", ",", "[", "]", "(", ")", "{", "}"];
    let n = ck.t(3, 4);
    ck.explore("tokens", "every sequence of tokens of all kinds is read as by an independent parser, or refused by both", seqs(&full, 0, n), |c: &Vec<&str>, obs| {
        if c.first() == Some(&"#") { return Ok(()); }
        same_reading(&c.join(" "), obs)
    });
    let structure = ["a", ";", "{", "}", "[", "]", "(", ")", ",", "=", "private"];
    let n = ck.t(5, 6);
    ck.explore("structure", "every sequence of names, brackets, separators, `=` and `private`", seqs(&structure, n, n), |c: &Vec<&str>, obs| same_reading(&c.join(" "), obs));
    let ops = ["#", "^", "*", "/", "%", "mod", "ATAN2", "+", "-", "Max", "min", "else", "select", "count", ":", "==", "!=", "<", "<=", ">", ">=", ">>", "&&", "and", "||", "OR"];
    let shapes: Vec<usize> = (0..ck.t(8, 40)).collect();
    ck.explore("precedence", "every sequence of three operators between four operands, bare, with a unary operator before one or two of them, and with parentheses around two or three", product(&seqs(&ops, 3, 3).collect::<Vec<_>>(), &shapes), |(o, shape), obs| {
        let mut x = ["a", "b", "c", "d"].map(String::from);
        let u = ["-", "str", "!", "count"];
        match *shape {
            0 => {}
            1 => { x[0] = "(a".into(); x[1] = "b)".into(); }
            2 => { x[1] = "(b".into(); x[2] = "c)".into(); }
            3 => { x[2] = "(c".into(); x[3] = "d)".into(); }
            4 => { x[0] = "- a".into(); }
            5 => { x[1] = "str b".into(); }
            6 => { x[3] = "count - d".into(); }
            7 => { x[1] = "(b".into(); x[3] = "d)".into(); }
            s => {
                let s = s - 8;
                let (i, k, par) = (s % 4, (s / 4) % 4, s / 16);
                x[i] = format!("{} {}", u[k], x[i]);
                if par == 1 { x[(i + 1) % 4] = format!("! {}", x[(i + 1) % 4]); }
            }
        }
        same_reading(&format!("{} {} {} {} {} {} {}", x[0], o[0], x[1], o[1], x[2], o[2], x[3]), obs)
    });
    let chars = ["a", "1", "0x", ".", "e", "-", "$", "F", " ", "\"", "'", "\n", ";", "=", ">", "&", "|", "!", "é"];
    let n = ck.t(3, 4);
    ck.explore("characters", "every text of characters and pairs that make up names, numbers, strings and operators", seqs(&chars, 0, n), |c: &Vec<&str>, obs| {
        let t: String = c.concat();
        if processed(&t).is_err() { return Ok(()); }
        same_reading(&t, obs)
    });
    let nums: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for i in ["", "0", "7", "007", "16777217", "4294967295", "4294967296", "5000000000", "340282350000000000000000000000000000000"] {
            for f in ["", ".0", ".5", ".25", ".1000000001"] {
                for e in ["", "e0", "E2", "e+3", "e-3"] { if !(i.is_empty() && f.is_empty()) { v.push(format!("{i}{f}{e}")); } }
            }
        }
        for h in ["0", "f", "FF", "7fffffff", "FFFFFFFF", "01000001"] { v.push(format!("0x{h}")); v.push(format!("${h}")); }
        v
    };
    ck.explore("numbers", "numbers of every form, alone, as an operand and in an array", product(&nums, &["@", "a = @;", "-@ + @", "[@,@]", "@*.5"].to_vec()), |(n, t), obs| same_reading(&t.replace('@', n), obs));
}

// ---------------------------------------------------------------- X02: compiled scripts

type At = (u32, u8, u16);
#[derive(Clone, Debug, PartialEq)]
pub enum Cn { Code(Blk), Str(Vec<u8>), Num(u32), Bool(bool), Arr(Vec<Cn>), Nul(String) }
#[derive(Clone, Debug, PartialEq)]
pub enum In { End, Push(u16), Call(u8, u16, At), Make(u16, At) }
#[derive(Clone, Debug, PartialEq)]
pub struct Blk { ptr: u64, pub ins: Vec<In> }
pub struct Sqfc { pub names: Vec<String>, pub consts: Vec<Cn>, files: Vec<String>, entry: u64 }

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        ensure!(self.0.len() >= n, "the file ends early");
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn n(&mut self, bytes: usize) -> Result<u64, String> { Ok(self.take(bytes)?.iter().rev().fold(0, |a, b| a << 8 | u64::from(*b))) }
    fn text(&mut self) -> Result<Vec<u8>, String> { let n = self.n(3)? as usize; Ok(self.take(n)?.to_vec()) }
    fn name(&mut self) -> Result<String, String> { String::from_utf8(self.text()?).map_err(|e| e.to_string()) }
    /// a compressed block: its length comes out of the decoder
    fn lzo(&mut self) -> Result<Vec<u8>, String> {
        let n = self.n(4)? as usize;
        ensure_eq!(self.n(1)?, 2, "method of compression");
        let mut steps = 0;
        // the block ends with 11 00 00: the first end at which the decoder is content
        let s = self.0;
        for e in 3..=s.len() {
            if s[e - 3..e] != [0x11, 0, 0] { continue; }
            if let Some(v) = super::lzo::ref_decode(&s[..e], n, &mut steps) {
                if v.len() == n { self.0 = &s[e..]; return Ok(v); }
            }
        }
        Err(format!("no end of the compressed block of {n}"))
    }
    fn block(&mut self) -> Result<Blk, String> {
        let ptr = self.n(8)?;
        let n = self.n(4)? as usize;
        let mut ins = vec![];
        for _ in 0..n {
            let t = self.n(1)?;
            let at = if t > 1 { (self.n(4)? as u32, self.n(1)? as u8, self.n(2)? as u16) } else { (0, 0, 0) };
            ins.push(match t {
                0 => In::End,
                1 => In::Push(self.n(2)? as u16),
                2..=7 => In::Call(t as u8, self.n(2)? as u16, at),
                8 => In::Make(self.n(2)? as u16, at),
                t => return Err(format!("instruction {t}")),
            });
        }
        Ok(Blk { ptr, ins })
    }
    fn constant(&mut self) -> Result<Cn, String> {
        Ok(match self.n(1)? {
            0 => Cn::Code(self.block()?),
            1 => Cn::Str(self.text()?),
            2 => Cn::Num(self.n(4)? as u32),
            3 => match self.n(1)? { 0 => Cn::Bool(false), 1 => Cn::Bool(true), b => return Err(format!("boolean {b}")) },
            4 => { let n = self.n(4)? as usize; Cn::Arr((0..n).map(|_| self.constant()).collect::<Result<_, _>>()?) }
            5 => Cn::Nul(self.name()?),
            t => return Err(format!("constant {t}")),
        })
    }
}
pub fn decode(b: &[u8]) -> Result<Sqfc, String> {
    let mut r = Rd(b);
    ensure_eq!(r.n(4)?, 1, "version");
    ensure_eq!(r.n(1)?, 5, "first block");
    let block = r.lzo()?;
    let mut q = Rd(&block);
    let n = q.n(2)?;
    let names = (0..n).map(|_| q.name()).collect::<Result<_, _>>()?;
    ensure!(q.0.is_empty(), "{} bytes after the names", q.0.len());
    ensure_eq!(r.n(1)?, 1, "second block");
    let block = r.lzo()?;
    let mut q = Rd(&block);
    let n = q.n(2)?;
    let consts = (0..n).map(|_| q.constant()).collect::<Result<_, _>>()?;
    ensure!(q.0.is_empty(), "{} bytes after the constants", q.0.len());
    ensure_eq!(r.n(1)?, 2, "third block");
    let n = r.n(2)?;
    let files = (0..n).map(|_| r.name()).collect::<Result<_, _>>()?;
    ensure_eq!(r.n(1)?, 3, "fourth block");
    let entry = r.n(8)?;
    ensure!(r.0.is_empty(), "{} bytes at the end", r.0.len());
    Ok(Sqfc { names, consts, files, entry })
}
impl Sqfc {
    fn name(&self, i: u16) -> Result<String, String> { self.names.get(usize::from(i)).cloned().ok_or(format!("name {i} of {}", self.names.len())) }
    fn get(&self, i: u64) -> Result<&Cn, String> { self.consts.get(i as usize).ok_or(format!("constant {i} of {}", self.consts.len())) }
    fn root(&self) -> Result<(&Blk, String), String> {
        let Cn::Code(b) = self.get(self.entry)? else { return Err("the entry point is no code".into()) };
        let Cn::Str(s) = self.get(b.ptr)? else { return Err("the source of the script is no text".into()) };
        Ok((b, String::from_utf8(s.clone()).map_err(|e| e.to_string())?))
    }
    fn constant(&self, c: &Cn, src: &str) -> Result<Ex, String> {
        Ok(match c {
            Cn::Code(b) => {
                ensure!(b.ptr >> 63 == 1, "code without a place in the source");
                let (o, n) = ((b.ptr & 0xffff_ffff) as usize, ((b.ptr >> 32) & 0x7fff_ffff) as usize);
                let text = src.as_bytes().get(o..o + n).ok_or(format!("source of code {o}+{n} of {}", src.len()))?;
                let text = std::str::from_utf8(text).map_err(|_| format!("source of code {o}+{n} splits a character"))?;
                let v = self.block(b, src)?;
                let read = ref_lex(text).and_then(|t| ref_parse(&t)).ok_or_else(|| format!("source of code {text:?} is no script"))?;
                let same = low(&read) == low(&v);
                ensure!(same, "source of code {text:?} is not {v:?}");
                Ex::Code(v, (o, n))
            }
            Cn::Str(s) => Ex::Str(String::from_utf8(s.clone()).map_err(|e| e.to_string())?, 0),
            Cn::Num(n) => Ex::Num(f32::from_bits(*n), 0),
            Cn::Bool(b) => Ex::Bool(*b, 0),
            Cn::Arr(v) => Ex::Arr(v.iter().map(|c| self.constant(c, src)).collect::<Result<_, _>>()?, (0, 0)),
            Cn::Nul(n) => Ex::Nul(n.clone(), 0),
        })
    }
    /// The statements that the instructions amount to; positions are places of the instructions
    fn block(&self, b: &Blk, src: &str) -> Result<Vec<St>, String> {
        let mut out = vec![];
        let mut stack: Vec<Ex> = vec![];
        let end = |stack: &mut Vec<Ex>, out: &mut Vec<St>| -> Result<(), String> {
            ensure!(stack.len() <= 1, "{} values at the end of a statement", stack.len());
            if let Some(e) = stack.pop() { out.push(St::Do(e, (0, 0))); }
            Ok(())
        };
        let place = |at: At| (at.0 as usize) << 24 | usize::from(at.1) << 16 | usize::from(at.2);
        for (k, i) in b.ins.iter().enumerate() {
            ensure!(k > 0 || *i == In::End, "the code begins with {i:?}");
            let mut pop = || stack.pop().ok_or("nothing on the stack".to_string());
            let e = match i {
                In::End => { end(&mut stack, &mut out)?; continue; }
                In::Push(c) => self.constant(self.get(u64::from(*c))?, src)?,
                In::Call(2, n, at) => Ex::Un(self.name(*n)?, Box::new(pop()?), place(*at)),
                In::Call(3, n, at) => { let r = pop()?; let l = pop()?; Ex::Bin(self.name(*n)?, Box::new(l), Box::new(r), place(*at)) }
                In::Call(4, n, at) => Ex::Nul(self.name(*n)?, place(*at)),
                In::Call(t @ (5 | 6), n, at) => {
                    let v = pop()?;
                    ensure!(stack.is_empty(), "values below an assignment");
                    let p = (place(*at), 0);
                    out.push(if *t == 5 { St::Set(self.name(*n)?, v, p) } else { St::Local(self.name(*n)?, v, p) });
                    continue;
                }
                In::Call(_, n, at) => Ex::Var(self.name(*n)?, place(*at)),
                In::Make(n, at) => {
                    ensure!(stack.len() >= usize::from(*n), "an array of {n} from {} values", stack.len());
                    let v = stack.split_off(stack.len() - usize::from(*n));
                    Ex::Arr(v, (place(*at), 1))
                }
            };
            stack.push(e);
        }
        end(&mut stack, &mut out)?;
        Ok(out)
    }
    pub fn script(&self) -> Result<(Vec<St>, String), String> {
        let (b, src) = self.root()?;
        Ok((self.block(b, &src)?, src))
    }
}
/// without positions, names in lower case
fn low(v: &[St]) -> Vec<St> {
    fn ex(e: &Ex) -> Ex {
        match e {
            Ex::Code(v, _) => Ex::Code(low(v), (0, 0)),
            Ex::Arr(v, _) => Ex::Arr(v.iter().map(ex).collect(), (0, 0)),
            Ex::Un(n, x, _) => Ex::Un(n.to_ascii_lowercase(), Box::new(ex(x)), 0),
            Ex::Bin(n, l, r, _) => Ex::Bin(n.to_ascii_lowercase(), Box::new(ex(l)), Box::new(ex(r)), 0),
            Ex::Str(s, _) => Ex::Str(s.clone(), 0),
            Ex::Num(n, _) => Ex::Num(*n, 0),
            Ex::Bool(b, _) => Ex::Bool(*b, 0),
            Ex::Nul(n, _) => Ex::Nul(n.to_ascii_lowercase(), 0),
            Ex::Var(n, _) => Ex::Var(n.to_ascii_lowercase(), 0),
        }
    }
    v.iter().map(|s| match s {
        St::Set(n, e, _) => St::Set(n.to_ascii_lowercase(), ex(e), (0, 0)),
        St::Local(n, e, _) => St::Local(n.to_ascii_lowercase(), ex(e), (0, 0)),
        St::Do(e, _) => St::Do(ex(e), (0, 0)),
    }).collect()
}
const CONST_NULAR: &[&str] = &["nil", "confignull", "controlnull", "diaryrecordnull", "displaynull", "grpnull", "locationnull", "objnull", "scriptnull", "tasknull", "teammembernull"];
/// The places of the instructions of a script, in the order in which the script reads:
/// (first character, last character) within which the place may lie
fn places(v: &[St], out: &mut Vec<(usize, usize)>) {
    fn constant(e: &Ex) -> bool {
        match e { Ex::Arr(v, _) => v.iter().all(constant), Ex::Nul(n, _) => is(CONST_NULAR, n), Ex::Un(..) | Ex::Bin(..) | Ex::Var(..) => false, _ => true }
    }
    fn ex(e: &Ex, out: &mut Vec<(usize, usize)>) {
        match e {
            Ex::Code(v, _) => places(v, out),
            Ex::Arr(v, (a, b)) => { v.iter().for_each(|e| ex(e, out)); if !constant(e) { out.push((*a, *b)); } }
            Ex::Nul(_, a) if !constant(e) => out.push((*a, *a)),
            Ex::Un(_, x, a) => { ex(x, out); out.push((*a, *a)); }
            Ex::Bin(_, l, r, a) => { ex(l, out); ex(r, out); out.push((*a, *a)); }
            Ex::Var(_, a) => out.push((*a, *a)),
            _ => {}
        }
    }
    for s in v {
        match s {
            St::Set(_, e, r) | St::Local(_, e, r) => { ex(e, out); out.push((r.0, r.0)); }
            St::Do(e, _) => ex(e, out),
        }
    }
}
/// The places that the compiled script states, in the same order
fn stated(v: &[St], out: &mut Vec<usize>) {
    fn ex(e: &Ex, out: &mut Vec<usize>) {
        match e {
            Ex::Code(v, _) => stated(v, out),
            Ex::Arr(v, (p, made)) => { v.iter().for_each(|e| ex(e, out)); if *made == 1 && *p != 0 { out.push(*p); } }
            Ex::Nul(_, p) if *p != 0 => out.push(*p),
            Ex::Un(_, x, p) => { ex(x, out); out.push(*p); }
            Ex::Bin(_, l, r, p) => { ex(l, out); ex(r, out); out.push(*p); }
            Ex::Var(_, p) => out.push(*p),
            _ => {}
        }
    }
    for s in v {
        match s {
            St::Set(_, e, r) | St::Local(_, e, r) => { ex(e, out); out.push(r.0); }
            St::Do(e, _) => ex(e, out),
        }
    }
}
fn sqfc(s: &Statements, p: &Processed) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    no_panic(|| s.compile_to_writer(p, &mut b))?.map_err(|e| format!("compiling fails: {e}"))?;
    Ok(b)
}
/// One script of one or more files: compiled and read back it is the same script
fn same_compiled(files: &[(&str, &str)], obs: &mut Obs) -> R {
    let ws = project(files)?;
    let p = run_file(&ws, files[0].0).map_err(|e| format!("the preprocessor refuses {files:?}: {e:?}"))?;
    let src = p.as_str().to_string();
    let want = ref_lex(&src).and_then(|t| ref_parse(&t)).ok_or_else(|| format!("{src:?} is no script"))?;
    let s = hemtt_sqf::parser::run(&DB, &p).map_err(|e| format!("{src:?} is refused: {e}"))?;
    let b = sqfc(&s, &p)?;
    obs.steps(b.len() as u64);
    obs.state(&b);
    let c = decode(&b).map_err(|e| format!("{src:?}: {e}"))?;
    let (v, text) = c.script().map_err(|e| format!("{src:?}: {e}"))?;
    ensure_eq!(text, src, "source within the compiled script");
    ensure_eq!(low(&v), low(&want), "compiled {src:?}");
    let (mut a, mut z) = (vec![], vec![]);
    places(&want, &mut a);
    stated(&v, &mut z);
    ensure_eq!(z.len(), a.len(), "instructions with a place of {src:?}: {v:?} {want:?}");
    let origin = super::pre::check_mapping(&p)?;
    let byte: Vec<usize> = src.char_indices().map(|(i, _)| i).collect();
    for (z, (f, l)) in z.iter().zip(&a) {
        let (o, file, line) = (z >> 24, (z >> 16) & 255, z & 0xffff);
        let i = byte.iter().position(|b| *b == o).ok_or(format!("an instruction of {src:?} is at byte {o}, no character begins there"))?;
        ensure!(*f <= i && i <= *l, "an instruction of {src:?} from {f}..{l} is placed at {i}");
        let name = c.files.get(file).ok_or(format!("file {file} of {}", c.files.len()))?;
        ensure!(origin[i].0.ends_with(name.trim_start_matches('/')) && !name.is_empty() && line == origin[i].1, "an instruction of {src:?} at {i} is placed in {name}:{line}, it is from {:?}", origin[i]);
    }
    Ok(())
}

pub fn exprs(deep: bool) -> (Vec<String>, Vec<String>, Vec<String>) {
    let e0: Vec<String> = ["1", "\"s\"", "'é'", "A", "true", "nil", "player", "{}", "[]"].map(String::from).to_vec();
    let mut e1 = vec![];
    for u in ["-", "Str"] { for a in &e0 { e1.push(format!("{u} {a}")); } }
    for b in ["+", "select", "else", "AND"] { for a in &e0 { for c in &e0 { e1.push(format!("{a} {b} {c}")); } } }
    for a in &e0 {
        e1.push(format!("[{a}]"));
        for c in &e0 { e1.push(format!("[{a} , {c}]")); }
        for s in ["{@}", "{ x = @ ; }", "{private X = @}"] { e1.push(s.replace('@', a)); }
    }
    let mut e2 = vec![];
    for a in &e1 {
        e2.push(format!("! ({a})"));
        for s in ["{@}", "{ x = @ ; }", "{private X = @; @}", "[@]", "[[@],1]"] { e2.push(s.replace('@', a)); }
        for c in &e0 {
            for (l, r) in [(a, c), (c, a)] {
                e2.push(format!("({l}) select ({r})"));
                e2.push(format!("[{l}, {r}]"));
                e2.push(format!("{{{l}; {r}}}"));
            }
        }
    }
    if deep { for a in &e1 { for c in &e1 { e2.push(format!("({a}) call ({c})")); e2.push(format!("[{a}, {c}]")); } } }
    (e0, e1, e2)
}

pub fn x02(ck: &Ck) {
    ck.hang_secs(300);
    let (e0, e1, e2) = exprs(!ck.quick());
    let mut all = e0.clone();
    all.extend(e1.clone());
    all.extend(e2);
    ck.explore("expressions", "every expression of two operators, arrays or code blocks (thorough: three) as a statement, assigned and assigned to a local variable", product(&all, &["@", "a = @;", "private b = @; c"].to_vec()), |(e, t), obs| {
        same_compiled(&[("a.sqf", &t.replace('@', e))], obs)
    });
    ck.explore("places", "the same expressions (one operator) over several lines, after text that is not ASCII, within a macro, and in an included file", product(&[e0.clone(), e1.clone()].concat(), &(0..6usize).collect::<Vec<_>>()), |(e, k), obs| {
        let nl = e.replace(' ', "\n");
        let (a, b) = match k {
            0 => (format!("z = \"ÄÖ\";\n\n{nl};\nq = {e};\n"), String::new()),
            1 => (format!("#define M {e}\n\nx = M; \"é\";\n M;\n"), String::new()),
            2 => ("a;\n#include \"b.sqf\"\nc = [b, d];\n".into(), format!("\n\n{nl};\n")),
            3 => (format!("#define M(x) [x, _x]\nw = '€';\n{{ M({}) }};\nlast\n", e.replace(',', " + ")), String::new()),
            4 => (format!("x = {{ \n \"é\";\n {{ {nl} ; }} ; ; }}"), String::new()),
            _ => ("#include \"b.sqf\"\n#include \"b.sqf\"\n".into(), format!("é_ = 1;\n{e};\n").replace("é_", "e_")),
        };
        same_compiled(&[("a.sqf", &a), ("b.sqf", &b)], obs)
    });
    let n = ck.t(4, 5);
    let toks = ["1", "a", "player", "str", "+", "private", "=", ";", "[", "]", "(", ")", "{", "}", ","];
    ck.explore("tokens", "every sequence of tokens that is a script", seqs(&toks, 0, n), |c: &Vec<&str>, obs| {
        let t = c.join(" ");
        if ref_lex(&t).and_then(|t| ref_parse(&t)).is_none() { return Ok(()); }
        same_compiled(&[("a.sqf", &t)], obs)
    });
    let big: Vec<(&str, usize)> = {
        let n = ck.t(vec![255, 256, 257, 65535, 65536], vec![1, 254, 255, 256, 257, 65534, 65535, 65536, 65537]);
        ["array of one constant", "array of one variable", "nested array", "files", "lines", "statements", "text"].iter().flat_map(|k| n.iter().map(|n| (*k, *n))).filter(|(k, n)| !(ck.quick() && *k == "array of one variable" && *n == 65535)).collect()
    };
    ck.explore("sizes", "arrays, files, lines, statements, texts around 2^8 and 2^16: compiled exactly or refused", big, |(kind, n), obs| {
        let n = *n;
        let rep = |s: &str| vec![s; n].join(",");
        let mut more = vec![];
        let t = match *kind {
            "array of one constant" => format!("x = [{}];", rep("1")),
            "array of one variable" => format!("x = [{}];", rep("a")),
            "nested array" => format!("x = [[{}], 2, y];", rep("1")),
            "files" => { if n > 300 { return Ok(()); } (1..n).map(|i| { more.push((format!("f{i}.sqf"), format!("a{i} = {i};\n"))); format!("#include \"f{i}.sqf\"\n") }).collect::<String>() + "last" }
            "lines" => "\n".repeat(n - 1) + "a; x = {b}",
            "statements" => "a=1;".repeat(n.min(3000)),
            _ => format!("x = \"{}\"; y", "é".repeat(n / 2)),
        };
        let mut files = vec![("a.sqf", t.as_str())];
        files.extend(more.iter().map(|(a, b)| (a.as_str(), b.as_str())));
        let ws = project(&files)?;
        let p = run_file(&ws, "a.sqf").map_err(|e| format!("{e:?}"))?;
        let s = hemtt_sqf::parser::run(&DB, &p).map_err(|e| format!("refused: {e}"))?;
        let mut b = vec![];
        obs.steps(n as u64);
        if let Err(e) = no_panic(|| s.compile_to_writer(&p, &mut b))? {
            obs.state(e.to_string());
            let fits = match *kind { "array of one constant" | "array of one variable" | "nested array" => n < 65536, "files" => n <= 256, "lines" => n < 65536, _ => true };
            ensure!(!fits, "{n} {kind} are refused: {e}");
            return Ok(());
        }
        obs.state(n);
        let c = decode(&b)?;
        let (v, text) = c.script()?;
        let src = p.as_str();
        ensure!(text == src, "source of {n} {kind}");
        let want = ref_lex(src).and_then(|t| ref_parse(&t)).ok_or("no script")?;
        let same = low(&v) == low(&want);
        ensure!(same, "{n} {kind} are compiled to something else");
        if *kind == "files" || *kind == "lines" {
            let mut z = vec![];
            stated(&v, &mut z);
            let last = z.last().ok_or("no place")?;
            let (file, line) = ((last >> 16) & 255, last & 0xffff);
            ensure!(c.files.get(file).is_some_and(|f| f.ends_with("a.sqf")), "file {file} of the last statement");
            ensure_eq!(line, n.min(65535), "line of the last statement");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- X03: optimized scripts

/// The script as it is written and its optimized, compiled form do the same, twice in a row
fn same_effect(text: &str, obs: &mut Obs) -> R {
    use super::sqfrun::{World, V};
    let p = processed(text)?;
    let src = p.as_str();
    let want = ref_lex(src).and_then(|t| ref_parse(&t)).ok_or_else(|| format!("{src:?} is no script"))?;
    let s = hemtt_sqf::parser::run(&DB, &p).map_err(|e| format!("{src:?} is refused: {e}"))?;
    let s = no_panic(|| s.optimize()).map_err(|e| format!("optimizing {src:?} {e}"))?;
    let b = sqfc(&s, &p)?;
    let c = decode(&b).map_err(|e| format!("{src:?}: {e}"))?;
    let (root, t) = c.root()?;
    ensure_eq!(t, src, "source within the compiled script");
    let mut a = World::new(None);
    let mut z = World::new(Some(&c));
    for run in 1..=2 {
        // what the script is called with
        let this = || V::Arr(std::rc::Rc::new(std::cell::RefCell::new(vec![V::Num(10.0)])));
        a.run(V::Src(&want), this());
        z.run(V::Byte(root), this());
        let (x, y) = (a.state(), z.state());
        obs.steps(1);
        obs.state(&x);
        ensure!(x == y, "run {run} of {src:?} ends with\n{y}\nwhen optimized, it is to end with\n{x}");
    }
    Ok(())
}
pub fn x03(ck: &Ck) {
    let stmts = [
        "x pushBack 5", "x set [0, 9]", "y pushBack 6", "(x select 0) pushBack 7", "(x select 1) pushBack 8", "y = x", "x = _a", "y = _b", "x = +x",
        "params [['_a', [1]]]", "params ['_a', ['_b', [2, [3]]]]", "params [['_a', 1], ['_b', 'q', [''], [0, 1]]]", "x = [[4]] params ['_a', ['_b', [2]]]", "[nil, nil] params [['_a', [3]], ['_b', []]]",
        "x = param [1, [7]]", "x = [] param [0, [[8]]]", "x = [[1], 2] param [0]", "y = [[1], [2]] param [1, [9]]",
        "x = player getVariable ['v', [1]]", "y = player getVariable ['w', [1]]", "player setVariable ['v', [1, [2]]]", "player setVariable ['v', x]", "x = player getVariable 'v'", "player setVariable ['w', 1, true]", "player setVariable ['c', {x} else {y}]",
        "x = player getOrDefault ['k', [1], true]", "x = player getOrDefault ['k', [[1]]]",
        "x = [1, 2] vectorAdd [3, 4]", "y = x vectorDiff [1, 1]", "x = [1, 2] vectorCrossProduct y", "x = [[1, 2] vectorDotProduct [3, 4]]", "x = [random [0, 1, 2], random [1, 2]]", "x = [1, 2] random 3", "x = [positionCameraToWorld [1, 0, 1]]",
        "x = {1} else {2}", "y = [{1} else {2}, [0]]", "x = if (true) then {[1]} else {[2]}", "if (count [1] > 0) then {x pushBack 1} else {y pushBack 1}", "x = [if (false) then {1} else {2; 3}]", "params [{} else {}]",
        "x = _this call {_this}", "x = [1] call {_this call {_this pushBack 3; _this}}", "x = call {params [['_c', [5]]]; _c}", "x = [2] call {x = [1]; _this}", "x = [1, 'a', true, nil, {}]", "x = [[], []]",
        "systemChat (toUpper 'a' + toLower 'B')", "x = [1 + 2 * 3, -1 - 2]",
    ];
    let set: Vec<&str> = stmts.to_vec();
    if !ck.quick() {
        let some: Vec<&str> = set.iter().enumerate().filter(|(i, _)| [0, 1, 3, 4, 5, 6, 8, 9, 10, 12, 14, 15, 18, 19, 20, 21, 24, 25, 27, 29, 34, 35, 36, 39, 40, 41, 42, 45].contains(i)).map(|(_, s)| *s).collect();
        ck.explore("sharing-longer", "the same for every sequence of four of 28 statements", seqs(&some, 4, 4), |c: &Vec<&str>, obs| same_effect(&c.join(";\n"), obs));
    }
    let n = 3;
    ck.explore("sharing", "every sequence of statements that make arrays, hand them on and change them, run twice", seqs(&set, n, n), |c: &Vec<&str>, obs| same_effect(&c.join(";\n"), obs));
    ck.explore("functions", "every sequence of two statements as a function that is called twice, and within `if`", product(&seqs(&set, 1, 2).collect::<Vec<_>>(), &["f = {@};\ncall f;\n[] call f;\n[x, y] call f", "if (true) then {@} else {1};\nif (false) then {2} else {@}", "z = [{@}, {@}];\ncall (z select 0);\n_this call (z select 1)"].to_vec()), |(c, t), obs| same_effect(&t.replace('@', &c.join(";")), obs));
    let vals = ["0", "1", "-3", "0.1", "7", "1e38", "1e-45", "a", "'A'", "'b '", "'É'", "\"it's\"", "[1]", "true"];
    let ops = ["+", "-", "*", "/", "%", "mod", "^", "max", "else", "select", "then"];
    let un = ["", "-", "sqrt", "toLower", "TOUPPER", "toUpperANSI", "toLowerANSI", "!", "+"];
    ck.explore("values", "every operator and unary command on values of every kind, and each of the results in a second operation", product(&product(&vals, &vals), &product(&product(&ops, &un), &ck.t(vec!["", "(@) + 1"], vec!["", "(@) + 1", "'x' + (@)", "-(@)", "(@) * 3", "2 % (@)", "toLower (@)", "[@, @]"]))), |((l, r), ((o, u), t)), obs| {
        let e = format!("{u} {l} {o} {u} {r}");
        same_effect(&format!("a = 2;\nx = {};", if t.is_empty() { e } else { t.replace('@', &e) }), obs)
    });
}
