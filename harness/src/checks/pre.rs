//! The preprocessor: conditionals, macros, includes, built-ins, comments, source mapping.
use std::collections::{BTreeMap, BTreeSet};

use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::{Error, Processor};
use hemtt_workspace::reporting::{Code, Processed, WorkspaceFiles};
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};

use crate::fw::*;
use crate::{ensure, ensure_eq};

pub fn project(files: &[(&str, &str)]) -> Result<WorkspacePath, String> {
    let mem: vfs::VfsPath = vfs::MemoryFS::new().into();
    for (p, c) in files {
        let f = mem.join(p).map_err(|e| e.to_string())?;
        f.parent().create_dir_all().map_err(|e| e.to_string())?;
        f.create_file().map_err(|e| e.to_string())?.write_all(c.as_bytes()).map_err(|e| e.to_string())?;
    }
    Workspace::create(mem.clone(), vec![(mem, LayerType::Source)], None, false, &PDriveOption::Disallow).map_err(|e| e.to_string())
}
pub fn run_file(ws: &WorkspacePath, name: &str) -> Result<Processed, Error> {
    let p = ws.join(name).expect("join");
    Processor::run(&p).map_err(|(_, e)| e)
}
/// identifier, file and line of an error or a warning
fn code_at(c: &dyn Code) -> (String, String, usize) {
    c.token().map_or_else(|| (c.ident().to_string(), String::new(), 0), |t| (c.ident().to_string(), t.position().path().as_str().to_string(), t.position().start().line()))
}
fn err_at(e: &Error) -> (String, String, usize) {
    match e { Error::Code(c) => code_at(&**c), e => (format!("{e}"), String::new(), 0) }
}
fn warnings(p: &Processed) -> Vec<(String, String, usize)> { p.warnings().iter().map(|w| code_at(&**w)).collect() }
/// Every error and warning can be shown
pub fn show(c: &dyn Code) -> Result<(), String> {
    let files = WorkspaceFiles::new();
    if let Some(d) = c.diagnostic() {
        no_panic(|| { let _ = d.to_string(&files); }).map_err(|e| format!("showing {}: {e}", c.ident()))?;
        no_panic(|| { let _ = d.to_annotations(&files); }).map_err(|e| format!("annotating {}: {e}", c.ident()))?;
    }
    Ok(())
}
fn show_all(r: &Result<Processed, Error>) -> Result<(), String> {
    match r {
        Err(Error::Code(c)) => show(&**c),
        Err(_) => Ok(()),
        Ok(p) => p.warnings().iter().try_for_each(|w| show(&**w)),
    }
}

/// Every character of the output belongs to a token that stands in a source exactly where the
/// mapping says. Returns for each character the file and line it is from.
pub fn check_mapping(p: &Processed) -> Result<Vec<(String, usize)>, String> {
    let out: Vec<char> = p.as_str().chars().collect();
    let mut origins = Vec::with_capacity(out.len());
    let (mut line, mut col) = (0usize, 0usize);
    for i in 0..out.len() {
        let m = p.mapping(i).ok_or_else(|| format!("no mapping at {i} of {:?}", p.as_str()))?;
        let (path, src) = p.source(m.source()).ok_or("no source")?;
        ensure_eq!(path.as_str(), m.original().path().as_str(), "source file of the mapping at {i}");
        let (a, b) = (m.original_start(), m.original_end());
        let text = src.get(a..b).ok_or_else(|| format!("mapping at {i} is {a}..{b} of {src:?}"))?;
        let tok = m.token().to_source();
        let norm = if text.starts_with('\r') { "\n" } else { text };
        ensure_eq!(norm, tok, "source text of the mapping at {i} of {:?}", p.as_str());
        let s = m.original().start();
        let before = &src[..a];
        ensure_eq!(s.line(), 1 + before.matches('\n').count(), "source line at {i} of {:?} from {src:?}", p.as_str());
        ensure_eq!(s.column(), a - before.rfind('\n').map_or(0, |x| x + 1), "source column at {i} of {:?} from {src:?}", p.as_str());
        let ps = m.processed_start();
        ensure!(ps.offset() <= i, "mapping at {i} starts at {}", ps.offset());
        if !m.was_macro() {
            let t: Vec<char> = tok.chars().collect();
            ensure!(i < ps.offset() + t.len(), "mapping at {i} covers {}..{}", ps.offset(), ps.offset() + t.len());
            ensure_eq!(out[i], t[i - ps.offset()], "character at {i} of {:?}", p.as_str());
        } else {
            ensure!(m.processed_end().offset() > i, "macro mapping at {i} ends at {}", m.processed_end().offset());
        }
        if ps.offset() == i { ensure_eq!((ps.line(), ps.column()), (line, col), "line and column of the output at {i} of {:?}", p.as_str()); }
        if out[i] == '\n' { line += 1; col = 0; } else { col += 1; }
        origins.push((path.as_str().to_string(), s.line()));
    }
    Ok(origins)
}

// ------------------------------------------------------------------ C01 conditionals
#[derive(Clone, Debug)]
struct Lv { on: bool, outer: bool, els: bool }
/// The conditional stack: which lines are active, or the error and its line.
struct RefCond { out: String, warn: Vec<(String, usize)> }
fn ref_conditionals(lines: &[String]) -> Result<RefCond, (&'static str, usize)> {
    let mut defs: BTreeMap<String, String> = BTreeMap::new();
    let mut st: Vec<(Lv, usize)> = vec![];
    let mut r = RefCond { out: String::new(), warn: vec![] };
    for (n, l) in lines.iter().enumerate() {
        let on = st.iter().all(|(l, _)| l.on);
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first().copied().unwrap_or("") {
            "#ifdef" | "#ifndef" => { let v = defs.contains_key(w[1]) == (w[0] == "#ifdef"); st.push((Lv { on: on && v, outer: on, els: false }, n + 1)); }
            "#if" => {
                let v = if on {
                    let val = |x: &str| defs.get(x).cloned().unwrap_or_else(|| x.to_string());
                    match w.len() {
                        2 => { if !defs.contains_key(w[1]) { return Err(("PE8", n + 1)); } val(w[1]) == "1" }
                        4 => val(w[1]) == val(w[3]),
                        _ => unreachable!(),
                    }
                } else { false };
                st.push((Lv { on: on && v, outer: on, els: false }, n + 1));
            }
            "#else" => {
                let Some((t, _)) = st.last_mut() else { return Err(("PE1", n + 1)) };
                if t.els { return Err(("PE17", n + 1)); }
                t.els = true;
                t.on = t.outer && !t.on;
            }
            "#endif" => { st.pop(); }
            "#define" => if on { if defs.insert(w[1].into(), w.get(2).unwrap_or(&"").to_string()).is_some() { r.warn.push(("PW1".into(), n + 1)); } }
            "#undef" => if on { defs.remove(w[1]); }
            _ => if on { r.out += l; r.out.push('\n'); }
        }
    }
    if let Some((_, n)) = st.last() { return Err(("PE18", *n)); }
    Ok(r)
}
pub fn cond_check(ck: &Ck) {
    ck.assume("an #endif without an #if is ignored (the preprocessor is lenient there)");
    let one = |lines: &[String], o: &mut Obs| -> R {
        let src = lines.iter().map(|l| format!("{l}\n")).collect::<String>();
        let ws = project(&[("config.cpp", &src)])?;
        let r = run_file(&ws, "config.cpp");
        let w = ref_conditionals(lines);
        o.steps(lines.len() as u64);
        match (&r, w) {
            (Err(e), Err((k, n))) => { let g = err_at(e); ensure_eq!((g.0.as_str(), g.2), (k, n), "error of {src:?}"); o.state((k, n)); }
            (Ok(p), Ok(w)) => {
                ensure_eq!(p.as_str(), w.out, "output of {src:?}");
                let g: Vec<(String, usize)> = warnings(p).into_iter().map(|(a, _, c)| (a, c)).collect();
                ensure_eq!(g, w.warn, "warnings of {src:?}");
                o.state(&w.out);
            }
            (Err(e), Ok(_)) => return Err(format!("{src:?} is refused: {:?}", err_at(e))),
            (Ok(p), Err(k)) => return Err(format!("{src:?} gives {:?} instead of {k:?}", p.as_str())),
        }
        Ok(())
    };
    let a = ["text", "#ifdef A", "#ifndef A", "#else", "#endif", "#define A 1", "#undef A", "#if A == 1"];
    // each text line carries its line number so that a line from elsewhere can not stand in for it
    let number = |s: &[&str]| -> Vec<String> { s.iter().enumerate().map(|(i, l)| if *l == "text" { format!("x{i} = 1;") } else { (*l).to_string() }).collect() };
    ck.explore("all", "every sequence of lines over {text, #ifdef, #ifndef, #else, #endif, #define, #undef, #if} up to the bound", seqs(&a, 0, ck.t(6, 7)), |s, o| one(&number(s), o));
    let b = ["text", "#ifdef A", "#ifdef B", "#else", "#endif"];
    ck.explore("nesting", "every longer sequence of lines over {text, #ifdef of a defined and of an undefined name, #else, #endif}: all nestings of conditionals", seqs(&b, 6, ck.t(7, 9)), |s, o| {
        let mut l = vec!["#define A 1".to_string()];
        l.extend(number(s));
        one(&l, o)
    });
    let c = ["text", "#define A 1", "#define A 0", "#undef A", "#ifdef A", "#if A", "#if A == 0", "#else", "#endif"];
    ck.explore("redefine", "definitions that change within and around conditionals", seqs(&c, 1, ck.t(5, 6)), |s, o| one(&number(s), o));
    // #if operands and operators
    let defs = [("ONE", "1"), ("TEN", "10"), ("TWO", "2"), ("HALF", "0.5"), ("NEG", "-3"), ("WORD", "abc"), ("STR", "\"1\""), ("BIG", "16777217")];
    let operands = ["BIG", "16777216", "ONE", "TEN", "TWO", "HALF", "NEG", "WORD", "STR", "1", "10", "2", "abc", "UNDEF", "1.0", "-3", "\"1\"", "09", "UNIT", "FUNC"];
    let ops = ["==", "!=", "<", ">", "<=", ">=", "=", "=>", "&&", "+", ""];
    let ends = ["\n", "", " \n", " // c\n"];
    let mut cases = vec![];
    for l in operands { for op in ops { for r in if op.is_empty() { &[""][..] } else { &operands[..] } { for e in ends { cases.push((l, op, *r, e)); } } } }
    ck.explore("operators", "every #if over 20 operands (macros of numbers, words, strings, units, functions and literal values), 10 operators and each way the line can end, and every #if of a single operand", cases, |(l, op, r, e), o| {
        let mut s: String = defs.iter().map(|(a, b)| format!("#define {a} {b}\n")).collect();
        s += "#define UNIT\n#define FUNC(x) x\n";
        let cond = if op.is_empty() { format!("#if {l}") } else { format!("#if {l} {op} {r}") };
        s += &cond;
        s += e;
        let closed = e.ends_with('\n');
        if closed { s += "yes\n#else\nno\n#endif\n"; }
        let ws = project(&[("config.cpp", &s)])?;
        let g = run_file(&ws, "config.cpp");
        o.steps(1);
        let val = |x: &str| defs.iter().find(|(a, _)| *a == x).map_or(x.to_string(), |(_, b)| (*b).to_string());
        let bad = |x: &str| x == "UNIT" || x == "FUNC";
        let want: Result<bool, &str> = if bad(l) || bad(r) { Err("PE7") }
            else if op.is_empty() { if defs.iter().any(|(a, _)| a == l) { Ok(val(l) == "1") } else { Err("PE8") } }
            else { match *op {
                "==" => Ok(val(l) == val(r)),
                "!=" => Ok(val(l) != val(r)),
                "<" | ">" | "<=" | ">=" => match (val(l).parse::<f64>(), val(r).parse::<f64>()) {
                    (Ok(a), Ok(b)) => Ok(match *op { "<" => a < b, ">" => a > b, "<=" => a <= b, _ => a >= b }),
                    _ => Err("PE15"), // pe16_if_incompatible_types calls itself PE15
                },
                _ => Err("PE15"),
            } };
        show_all(&g)?;
        o.state(format!("{want:?}{closed}"));
        match (g, want) {
            (Err(e), Err(k)) => ensure_eq!(err_at(&e).0, k, "error of {cond:?}"),
            (Err(e), Ok(_)) if !closed => ensure_eq!(err_at(&e).0, "PE18", "error of {cond:?} at the end of the file"),
            (Ok(p), Ok(v)) if closed => ensure_eq!(p.as_str().trim_start(), if v { "yes\n" } else { "no\n" }, "{cond:?}"),
            (Err(e), w) => return Err(format!("{cond:?}{e:?} is refused with {:?}, expected {w:?}", err_at(&e))),
            (Ok(p), w) => return Err(format!("{cond:?}{e:?} gives {:?}, expected {w:?}", p.as_str())),
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C02 macros
/// Items of macro bodies and of the text. The reference works on these, never on characters.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum It {
    /// text that no macro touches
    T(&'static str),
    /// a name, which may be a macro or a parameter
    N(&'static str),
    /// a name with arguments
    C(&'static str, Vec<Vec<It>>),
    /// `#` in front of an item
    Q(Box<It>),
    /// `##`
    J,
}
use It::*;
/// A body whose neighbouring names do not run together
fn apart(v: &[It]) -> Vec<It> {
    let mut out: Vec<It> = vec![];
    for i in v {
        let l = out.last().map(|x| render(std::slice::from_ref(x))).unwrap_or_default();
        let r = render(std::slice::from_ref(i));
        let w = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
        if w(l.chars().last()) && w(r.chars().next()) || l.ends_with('#') && r.starts_with('#') { out.push(T(" ")); }
        out.push(i.clone());
    }
    out
}
fn render(v: &[It]) -> String {
    v.iter().map(|i| match i {
        T(s) | N(s) => (*s).to_string(),
        C(n, a) => format!("{n}({})", a.iter().map(|x| render(x)).collect::<Vec<_>>().join(",")),
        Q(i) => format!("#{}", render(std::slice::from_ref(i))),
        J => "##".to_string(),
    }).collect()
}
#[derive(Clone, Debug)]
enum Df { Obj(Vec<It>), Fun(&'static [&'static str], Vec<It>), Unit }
type Defs = BTreeMap<&'static str, Df>;
struct Exp<'a> { defs: &'a Defs, active: Vec<&'static str> }
/// name of the innermost function macro and the values of its parameters
type Frame = (&'static str, BTreeMap<&'static str, String>);
impl Exp<'_> {
    fn name(&mut self, n: &'static str, args: Option<&[Vec<It>]>, f: Option<&Frame>) -> Result<String, &'static str> {
        let call = |e: &mut Self, f: Option<&Frame>| -> Result<String, &'static str> {
            Ok(match args { None => String::new(), Some(a) => {
                let mut v = vec![];
                for x in a { v.push(e.all(x, f)?); }
                format!("({})", v.join(","))
            } })
        };
        if let Some((_, p)) = f { if let Some(v) = p.get(n) { let v = v.clone(); return Ok(v + &*call(self, f)?); } }
        let Some(d) = self.defs.get(n) else { return Ok(n.to_string() + &*call(self, f)?) };
        if self.active.contains(&n) || f.is_some_and(|f| f.0 == n) { return Ok(n.to_string() + &*call(self, f)?); }
        match d {
            Df::Unit => Err("PE11"),
            Df::Obj(b) => {
                self.active.push(n);
                let r = self.all(b, f)?;
                self.active.pop();
                Ok(r + &*call(self, f)?)
            }
            Df::Fun(ps, b) => {
                let Some(a) = args else { return Err("PE10") };
                let mut v = vec![];
                for x in a { v.push(self.all(x, f)?); }
                // a call without anything between its parentheses has no arguments
                if v.len() == 1 && v[0].is_empty() { v.clear(); }
                if v.len() != ps.len() { return Err("PE9"); }
                let fr: Frame = (n, ps.iter().copied().zip(v).collect());
                self.active.push(n);
                let r = self.all(b, Some(&fr))?;
                self.active.pop();
                Ok(r)
            }
        }
    }
    fn one(&mut self, i: &It, f: Option<&Frame>) -> Result<String, &'static str> {
        match i {
            T(s) => Ok((*s).to_string()),
            N(n) => self.name(n, None, f),
            C(n, a) => self.name(n, Some(a), f),
            Q(i) => {
                let n = match &**i { N(n) | C(n, _) => *n, _ => return Ok("#".to_string() + &*self.one(i, f)?) };
                let known = f.is_some_and(|f| f.1.contains_key(n)) || (self.defs.contains_key(n) && !f.is_some_and(|f| f.0 == n));
                let inner = self.one(i, f)?;
                // only what is in a macro is quoted
                if known && !self.active.is_empty() {
                    if let C(n, a) = &**i {
                        // an object macro is quoted alone, what follows it is outside of the quotes
                        let fun = matches!(self.defs.get(n), Some(Df::Fun(..))) && !self.active.contains(n) && !f.is_some_and(|f| f.1.contains_key(n));
                        if !fun {
                            let head = self.one(&N(n), f)?;
                            let mut v = vec![];
                            for x in a { v.push(self.all(x, f)?); }
                            return Ok(format!("\"{head}\"({})", v.join(",")));
                        }
                    }
                    Ok(format!("\"{inner}\""))
                } else { Ok(format!("#{inner}")) }
            }
            J => Ok(String::new()),
        }
    }
    fn all(&mut self, v: &[It], f: Option<&Frame>) -> Result<String, &'static str> {
        let mut s = String::new();
        for i in v { s += &self.one(i, f)?; }
        Ok(s)
    }
}
fn q(i: It) -> It { Q(Box::new(i)) }
fn macro_case(defs: &[(&'static str, Df)], text: &[It], o: &mut Obs) -> R { macro_case_in(None, defs, text, o) }
/// `at` is the file the definitions are in, behind many lines of something else
fn macro_case_in(at: Option<&str>, defs: &[(&'static str, Df)], text: &[It], o: &mut Obs) -> R {
    let mut src = String::new();
    for (n, d) in defs {
        src += &match d {
            Df::Unit => format!("#define {n}\n"),
            Df::Obj(b) => format!("#define {n} {}\n", render(b)),
            Df::Fun(p, b) => format!("#define {n}({}) {}\n", p.join(","), render(b)),
        };
    }
    let mut line = defs.len() + 1;
    let mut header = String::new();
    if let Some(f) = at {
        header = format!("/* {} */\n{}", "-\n".repeat(40), std::mem::take(&mut src));
        src = format!("#include \"{}\"\n", f.replace('/', "\\"));
        line = 2;
    }
    src += &render(text);
    src.push('\n');
    let m: Defs = defs.iter().cloned().collect();
    let want = Exp { defs: &m, active: vec![] }.all(text, None);
    let ws = project(&[("config.cpp", &src), (at.unwrap_or("none.hpp"), &header)])?;
    let got = run_file(&ws, "config.cpp");
    o.steps((defs.len() + text.len()) as u64);
    match (&got, &want) {
        (Ok(p), Ok(w)) => {
            let text = p.as_str();
            let from = if at.is_some() { text.len() - text.trim_start_matches('\n').len() } else { 0 };
            let text = &text[from..];
            ensure_eq!(text.strip_suffix('\n').unwrap_or(text), w.trim_start_matches(if at.is_some() { '\n' } else { '\0' }), "{src:?} with {header:?}");
            for (f, l) in check_mapping(p)?.into_iter().skip(from) { ensure_eq!((f.as_str(), l), ("/config.cpp", line), "origin of the expansion of {src:?} with {header:?}"); }
        }
        (Err(e), Err(k)) => ensure_eq!(err_at(e).0, *k, "error of {src:?}"),
        (Ok(p), Err(k)) => return Err(format!("{src:?} gives {:?}, expected {k}", p.as_str())),
        (Err(e), Ok(w)) => return Err(format!("{src:?} is refused with {:?}, expected {w:?}", err_at(e))),
    }
    o.state(format!("{want:?}"));
    Ok(())
}
pub fn macro_check(ck: &Ck) {
    ck.assume("bodies of object macros do not mention the parameters of function macros; macro names are not used as bare arguments where that is an error by design");
    ck.assume("# is not used within macro arguments, commas within nested parentheses separate arguments (as tested upstream)");
    let c1 = |n: &'static str, a: It| C(n, vec![vec![a]]);
    let c2 = |n: &'static str, a: It, b: It| C(n, vec![vec![a], vec![b]]);
    let obj: Vec<It> = vec![T("1"), N("A"), N("B"), c1("F", N("B")), c1("F", N("A")), c2("G", N("A"), T("2")), T("\"A F(1)\""), q(N("B")), T("+")];
    let fun: Vec<It> = vec![N("x"), T("1"), q(N("x")), N("A"), c1("F", N("x")), c2("G", N("x"), N("B")), T("\"x\""), J, N("y")];
    let gun: Vec<It> = vec![N("y"), N("x"), c1("F", N("y")), q(N("y")), c2("G", N("y"), N("x")), J, N("A")];
    let text: Vec<Vec<It>> = vec![
        vec![N("A")], vec![N("B")], vec![c1("F", T("7"))], vec![c1("F", N("A"))], vec![c1("F", c1("F", T("7")))],
        vec![c2("G", T("7"), T("8"))], vec![c2("G", N("A"), c1("F", N("B")))], vec![N("F")], vec![C("F", vec![vec![]])],
        vec![C("G", vec![vec![], vec![T("8")]])], vec![C("G", vec![vec![T("7")], vec![]])], vec![c2("F", T("7"), T("8"))], vec![c1("G", T("7"))],
        vec![T("\"A\""), T(" "), N("AB"), T(" "), c1("A", T("3"))],
    ];
    let l = |v: &[It], n: usize| -> Vec<Vec<It>> { seqs(v, 1, n).map(|b: Vec<It>| apart(&b)).collect() };
    let (oa, ob, of, og) = (l(&obj, 1), l(&obj, 1), l(&fun, ck.t(2, 3)), l(&gun, ck.t(1, 2)));
    let mut idx = vec![];
    for a in 0..oa.len() { for b in 0..ob.len() { for f in 0..of.len() { for g in 0..og.len() { idx.push((a, b, f, g)); } } } }
    ck.explore("definitions", "every definition of two object macros and two function macros (one and two parameters) with bodies from the token alphabet, used in 14 ways: recursion, nesting, quoting, joining, wrong and missing arguments", idx, |&(a, b, f, g), o| {
        let defs = [("A", Df::Obj(oa[a].clone())), ("B", Df::Obj(ob[b].clone())), ("F", Df::Fun(&["x"], of[f].clone())), ("G", Df::Fun(&["x", "y"], og[g].clone()))];
        for t in &text { macro_case(&defs, t, o)?; }
        Ok(())
    });
    // longer bodies with fewer macros
    let lb = l(&[T("1"), N("A"), N("B"), T(" "), T("\"A\""), q(N("A")), q(N("B")), q(N("Z")), J, T("'B'"), N("Z"), T("."), T("-")], ck.t(3, 4));
    ck.explore("objects", "every body of an object macro from a token alphabet up to the bound: strings are untouched, names are expanded, # quotes and ## joins", lb, |b, o| {
        let mut b = b.clone();
        // quotes of any kind protect from nothing but double quotes do: keep the single quoted name a non macro
        for i in &mut b { if *i == T("'B'") { *i = T("'Z'"); } }
        if matches!(b[0], T(" ")) || matches!(b.last(), Some(T(" "))) { return Ok(()); }
        macro_case(&[("B", Df::Obj(vec![T("b")])), ("A", Df::Obj(b))], &[T("<"), N("A"), T(">")], o)
    });
    // arguments
    let arg: Vec<Vec<It>> = { let mut v: Vec<Vec<It>> = seqs(&[T("7"), N("B"), N("A"), c1("F", T("8")), T("\"a,b)\""), T("-")], 0, ck.t(2, 3)).map(|b: Vec<It>| apart(&b)).collect(); v.push(vec![T("(1)")]); v.push(vec![T("["), N("B"), T("]")]); v };
    let bodies = [vec![N("x"), T("+"), N("y")], vec![q(N("x")), q(N("y"))], vec![c1("F", N("y")), J, N("x")], vec![N("y"), T(";"), N("y")]];
    let mut cases = vec![];
    for a in 0..arg.len() { for b in 0..arg.len() { for k in 0..bodies.len() { cases.push((a, b, k)); } } }
    ck.explore("arguments", "every pair of arguments from a token alphabet (macros, calls, strings with commas and parentheses, nothing) given to bodies that repeat, swap, quote and pass them on", cases, |&(a, b, k), o| {
        let defs = [("A", Df::Obj(vec![T("a")])), ("B", Df::Obj(vec![N("A"), T(" b")])), ("F", Df::Fun(&["x"], vec![T("f("), N("x"), T(")")])), ("G", Df::Fun(&["x", "y"], bodies[k].clone()))];
        let t = [C("G", vec![arg[a].clone(), arg[b].clone()])];
        macro_case(&defs, &t, o)?;
        // the same from another file, of another and of the same name, in which they come later than the use
        macro_case_in(Some("macros.hpp"), &defs, &t, o)?;
        macro_case_in(Some("sub/config.cpp"), &defs, &t, o)
    });
    // the same names for macros and for parameters: the innermost parameter counts, then the macro
    let obj: Vec<Vec<It>> = vec![vec![T("1")], vec![N("B")], vec![c1("F", T("3"))], vec![c2("G", T("4"), T("5"))], vec![c1("F", N("B"))]];
    let obk: Vec<Vec<It>> = vec![vec![T("2")], vec![c1("F", T("3"))], vec![c2("G", T("4"), T("5"))], vec![N("A")]];
    let body: Vec<It> = vec![N("A"), N("B"), q(N("A")), q(N("B")), c1("F", N("A")), c1("F", N("B")), c2("G", N("A"), N("B")), T("+")];
    let (of, og) = (l(&body, ck.t(2, 3)), l(&body, ck.t(1, 2)));
    let text: Vec<Vec<It>> = vec![vec![N("A")], vec![N("B")], vec![c1("F", T("7"))], vec![c1("F", N("A"))], vec![c1("F", N("B"))], vec![c2("G", T("7"), T("8"))], vec![c2("G", N("A"), N("B"))], vec![c2("G", N("B"), c1("F", N("A")))]];
    let mut idx = vec![];
    for a in 0..obj.len() { for b in 0..obk.len() { for f in 0..of.len() { for g in 0..og.len() { idx.push((a, b, f, g)); } } } }
    ck.explore("shadow", "every definition of two object macros and two function macros whose parameters have the names of the object macros, used in 8 ways", idx, |&(a, b, f, g), o| {
        let defs = [("A", Df::Obj(obj[a].clone())), ("B", Df::Obj(obk[b].clone())), ("F", Df::Fun(&["A"], of[f].clone())), ("G", Df::Fun(&["B", "A"], og[g].clone()))];
        for t in &text { macro_case(&defs, t, o)?; }
        Ok(())
    });
    // `##` joins everywhere but within strings
    let pc = ["'s'", "\"s\"", "\"it's\"", "'say \"x\"'", "a##b", "a ## b", "'a##b'", "\"a##b\"", "\"it's##\"", "ID(c##d)", "ID('c##d')", "Q(e##f)", "\n"];
    ck.explore("joins", "every sequence of strings in both kinds of quotes and of joined words, outside and inside of macro arguments: the words are joined, the strings are kept", seqs(&pc, 1, ck.t(4, 5)), |s, o| {
        let src = format!("#define ID(x) x\n#define Q(x) #x\n{}\n", s.join(" "));
        let want: String = s.iter().map(|x| match *x { "a##b" => "ab", "a ## b" => "a  b", "ID(c##d)" => "cd", "ID('c##d')" => "'c##d'", "Q(e##f)" => "\"e##f\"", x => x }).collect::<Vec<_>>().join(" ");
        let p = run_file(&project(&[("config.cpp", &src)])?, "config.cpp").map_err(|e| format!("{src:?}: {:?}", err_at(&e)))?;
        o.steps(s.len() as u64); o.state(p.as_str());
        ensure_eq!(p.as_str().trim_start_matches('\n'), format!("{want}\n").trim_start_matches('\n'), "{src:?}");
        Ok(())
    });
    // a function macro is a scope: directives in its body do not reach past the call
    let db = ["#undef A", "#undef A ", "#define A 3", "#define x 3", "#define C 3", "#undef C", "#ifdef A", "#pragma hemtt suppress pw3_padded_arg file"];
    let after = ["A", "D(4)", "C(5)", "x", "C( 5)"];
    ck.explore("bodies", "every directive as the body of a function macro, after which every macro still means what it did", product(&db, &seqs(&after, 1, 2).collect::<Vec<_>>()), |(d, u), o| {
        let src = format!("#define A 1\n#define C(x) [x]\n#define D(x) <A x>\n#define F(x) {d}\nF(0)\n{}\n", u.join("\n"));
        let g = run_file(&project(&[("config.cpp", &src)])?, "config.cpp");
        o.steps(u.len() as u64);
        match g {
            Err(e) => o.state(err_at(&e).0),
            Ok(p) => {
                let want: Vec<&str> = u.iter().map(|l| match *l { "A" => "1", "D(4)" => "<1 4>", "C(5)" => "[5]", "C( 5)" => "[ 5]", x => x }).collect();
                let got: Vec<&str> = p.as_str().lines().filter(|l| !l.trim().is_empty()).collect();
                ensure_eq!(got, want, "{src:?}");
                o.state(got.len());
            }
        }
        Ok(())
    });
    // definitions and uses in sequence: what counts is the definition in force
    let ops = ["#define A 1", "#define A 2", "#define A", "#define A(x) x", "#undef A", "A", "A(3)", "#define B A", "B", "#undef B"];
    ck.explore("sequences", "every sequence of defining, redefining, undefining and using macros up to the bound: the definition in force at the use counts, redefinition warns", seqs(&ops, 1, ck.t(5, 6)), |s, o| {
        let mut src = String::new();
        for l in s { src += l; src.push('\n'); }
        let mut defs: Defs = BTreeMap::new();
        let mut out = String::new();
        let mut warn = vec![];
        let mut err = None;
        for (n, l) in s.iter().enumerate() {
            let r: Result<(), &'static str> = (|| {
                let mut set = |k: &'static str, d: Df| if defs.insert(k, d).is_some() { warn.push(("PW1".to_string(), "/config.cpp".to_string(), n + 1)); };
                match *l {
                    "#define A 1" => set("A", Df::Obj(vec![T("1")])),
                    "#define A 2" => set("A", Df::Obj(vec![T("2")])),
                    "#define A" => set("A", Df::Unit),
                    "#define A(x) x" => set("A", Df::Fun(&["x"], vec![N("x")])),
                    "#define B A" => set("B", Df::Obj(vec![N("A")])),
                    "#undef A" => { defs.remove("A"); }
                    "#undef B" => { defs.remove("B"); }
                    t => {
                        let i = match t { "A" => N("A"), "B" => N("B"), _ => C("A", vec![vec![T("3")]]) };
                        out += &Exp { defs: &defs, active: vec![] }.all(&[i], None)?;
                        out.push('\n');
                    }
                }
                Ok(())
            })();
            if let Err(k) = r { err = Some(k); break; }
        }
        let ws = project(&[("config.cpp", &src)])?;
        o.steps(s.len() as u64);
        match (run_file(&ws, "config.cpp"), err) {
            (Err(e), Some(k)) => { ensure_eq!(err_at(&e).0, k, "error of {src:?}"); o.state(k); }
            // a definition without a body leaves its line empty
            (Ok(p), None) => { ensure_eq!(p.as_str().lines().filter(|l| !l.is_empty()).map(|l| format!("{l}\n")).collect::<String>(), out, "{src:?}"); ensure_eq!(warnings(&p), warn, "warnings of {src:?}"); check_mapping(&p)?; o.state(out); }
            (Ok(p), Some(k)) => return Err(format!("{src:?} gives {:?}, expected {k}", p.as_str())),
            (Err(e), None) => return Err(format!("{src:?} is refused with {:?}, expected {out:?}", err_at(&e))),
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C03 includes and built-ins
type Files = BTreeMap<&'static str, Vec<&'static str>>;
struct RefInc<'a> { files: &'a Files, out: Vec<(String, String, usize)>, defs: BTreeMap<String, String>, counter: usize, warn: Vec<(String, String, usize)>, depth: usize }
impl RefInc<'_> {
    fn locate(&self, from: &str, path: &str) -> Option<&'static str> {
        let full = if let Some(p) = path.strip_prefix('\\') { p.replace('\\', "/") } else {
            let dir = from.rfind('/').map_or("", |i| &from[..=i]);
            let mut parts: Vec<String> = vec![];
            for c in format!("{dir}{}", path.replace('\\', "/")).split('/') { if c == ".." { parts.pop()?; } else if c != "." { parts.push(c.to_string()); } }
            parts.join("/")
        };
        self.files.keys().find(|k| **k == full).copied()
    }
    fn file(&mut self, name: &'static str) -> Result<(), (&'static str, String, usize)> {
        let lines = self.files[name].clone();
        let mut skip: Vec<(bool, bool)> = vec![];
        for (n, l) in lines.iter().enumerate() {
            let n = n + 1;
            let at = |k: &'static str| (k, format!("/{name}"), n);
            let on = skip.iter().all(|s| s.0);
            if let Some(m) = l.strip_prefix("#ifndef ") { let v = !self.defs.contains_key(m); skip.push((on && v, on)); continue; }
            if *l == "#endif" { skip.pop(); continue; }
            if !on { continue; }
            if let Some(p) = l.strip_prefix("#include ") {
                let p = &p[1..p.len() - 1];
                if self.depth > 64 { return Err(at("PE27")); }
                let Some(t) = self.locate(name, p) else { return Err(("PE12", String::new(), 0)) };
                self.depth += 1;
                self.file(t)?;
                self.depth -= 1;
                continue;
            }
            if let Some(d) = l.strip_prefix("#define ") {
                let (k, v) = d.split_once(' ').unwrap_or((d, ""));
                if self.defs.insert(k.to_string(), v.to_string()).is_some() { self.warn.push(("PW1".into(), format!("/{name}"), n)); }
                continue;
            }
            if let Some(k) = l.strip_prefix("#undef ") { self.defs.remove(k); continue; }
            let stem = name.rsplit('/').next().unwrap_or(name);
            let mut t = String::new();
            for w in l.split_inclusive(' ') {
                let (w, sp) = w.strip_suffix(' ').map_or((w, ""), |w| (w, " "));
                let w = self.defs.get(w).cloned().unwrap_or_else(|| w.to_string());
                t += &match w.as_str() {
                    "__FILE__" => format!("\"\\{}\"", name.replace('/', "\\")),
                    "__FILE_NAME__" => stem.to_string(),
                    "__FILE_SHORT__" => stem.rsplit_once('.').map_or(stem, |x| x.0).to_string(),
                    "__LINE__" => n.to_string(),
                    "__COUNTER__" => { self.counter += 1; (self.counter - 1).to_string() }
                    "__COUNTER_RESET__" => { self.counter = 0; String::new() }
                    "__ARMA__" | "__ARMA3__" => "1".to_string(),
                    _ => w.clone(),
                };
                t += sp;
            }
            self.out.push((t + "\n", format!("/{name}"), n));
        }
        Ok(())
    }
}
fn include_case(files: &Files, o: &mut Obs) -> R {
    let texts: Vec<(&str, String)> = files.iter().map(|(n, l)| (*n, l.iter().map(|l| format!("{l}\n")).collect::<String>())).collect();
    let refs: Vec<(&str, &str)> = texts.iter().map(|(a, b)| (*a, b.as_str())).collect();
    let ws = project(&refs)?;
    let mut r = RefInc { files, out: vec![], defs: BTreeMap::new(), counter: 0, warn: vec![], depth: 0 };
    // the main file is one of the open files
    r.depth = 1;
    let want = r.file("config.cpp");
    let got = run_file(&ws, "config.cpp");
    o.steps(files.values().map(|v| v.len() as u64).sum::<u64>() + r.out.len() as u64);
    match (&got, &want) {
        (Err(e), Err(k)) => {
            let g = err_at(e);
            if k.0 == "PE12" { ensure_eq!(g.0, "PE12", "error of {files:?}"); } else { ensure_eq!((g.0.as_str(), g.1, g.2), (k.0, k.1.clone(), k.2), "error of {files:?}"); }
            o.state(k);
        }
        (Ok(p), Ok(())) => {
            let text: String = r.out.iter().map(|x| x.0.as_str()).collect();
            ensure_eq!(p.as_str(), text, "output of {files:?}");
            ensure_eq!(warnings(p), r.warn, "warnings of {files:?}");
            let origins = check_mapping(p)?;
            let mut i = 0;
            for (t, f, n) in &r.out { for _ in t.chars() { ensure_eq!((&origins[i].0, origins[i].1), (f, *n), "origin of character {i} of {text:?}"); i += 1; } }
            o.state(text);
        }
        (Ok(p), Err(k)) => return Err(format!("{files:?} gives {:?} (..), expected {k:?}", p.as_str().chars().take(200).collect::<String>())),
        (Err(e), Ok(())) => return Err(format!("{files:?} is refused with {:?}", err_at(e))),
    }
    show_all(&got)
}
pub fn include_check(ck: &Ck) {
    ck.assume("included files end with a newline; project without prefix files (see F01 for how paths are found)");
    let ra = ["#include \"a.hpp\"", "#include \"sub\\b.hpp\"", "#define X 5", "X __LINE__ __FILE__", "__COUNTER__ __FILE_NAME__", "#undef X"];
    let aa = ["#include \"sub\\b.hpp\"", "#define X __LINE__", "X __FILE_SHORT__", "#include \"a.hpp\"", "__COUNTER__", "#include \"none.hpp\""];
    let ba = ["#include \"..\\a.hpp\"", "#ifndef G", "#define G 1", "#endif", "X", "__FILE__ __COUNTER__ __LINE__", "#include <a.hpp>", "#include \"\\config.cpp\""];
    let (r, a, b): (Vec<_>, Vec<_>, Vec<_>) = (seqs(&ra, 1, 3).collect(), seqs(&aa, 0, 2).collect(), seqs(&ba, 0, ck.t(2, 3)).collect());
    let (nr, na, nb) = (r.len(), a.len(), b.len());
    let bal = |v: &[&str]| { let mut d = 0i32; for l in v { if l.starts_with("#ifndef") { d += 1; } else if *l == "#endif" { d -= 1; if d < 0 { return false; } } } d == 0 };
    let step = ck.t(3usize, 1);
    ck.explore("graphs", "every set of three files whose lines include one another (relative, absolute, upwards, angle brackets, self, cycles, missing), define, undefine, guard and use macros and built-ins (quick: every third main file)", (0..nr * na * nb).filter(move |i| (i % nr) % step == 0), |&i, o| {
        let (x, y, z) = (i % nr, i / nr % na, i / nr / na);
        if !bal(&b[z]) { return Ok(()); }
        let f: Files = [("config.cpp", r[x].clone()), ("a.hpp", a[y].clone()), ("sub/b.hpp", b[z].clone()), ("sub/a.hpp", vec!["c X", "#define X 6"])].into_iter().collect();
        include_case(&f, o)
    });
    let bi = ["__COUNTER__", "__COUNTER_RESET__", "__LINE__", "__FILE__", "__FILE_NAME__", "__FILE_SHORT__", "__ARMA__ __ARMA3__", "#define X __COUNTER__", "X X", "#define X __LINE__"];
    ck.explore("builtins", "every sequence of built-in macros, directly and through other macros, in a nested file", seqs(&bi, 1, ck.t(4, 5)), |s, o| {
        let f: Files = [("config.cpp", vec!["__COUNTER__", "#include \"d.e\\f.inc.hpp\"", "__COUNTER__ __LINE__ __FILE__"]), ("d.e/f.inc.hpp", s.clone())].into_iter().collect();
        include_case(&f, o)
    });
    // no name of a built-in can be taken, and the ones that differ from run to run are refused
    const BUILTINS: [&str; 26] = ["__ARMA__", "__ARMA3__", "__COUNTER__", "__COUNTER_RESET__", "__FILE__", "__FILE_NAME__", "__FILE_SHORT__", "__LINE__", "__EVAL", "__DATE_ARR__", "__DATE_STR__", "__DATE_STR_ISO8601__", "__TIME__", "__TIME_UTC__", "__TIMESTAMP_UTC__", "__DAY__", "__MONTH__", "__YEAR__", "__GAME_VER__", "__GAME_VER_MAJ__", "__GAME_VER_MIN__", "__GAME_BUILD__", "__A3_DIAG__", "__A3_DEBUG__", "__EXEC", "__OTHER__"];
    ck.explore("reserved", "every built-in (and one that is none) defined as each kind of macro, undefined, used, used in a macro, defined and used in a part that is left out", product(&BUILTINS, &(0..8).collect::<Vec<_>>()), |&(b, how), o| {
        let body = match how { 0 => format!("#define {b} 1"), 1 => format!("#define {b}"), 2 => format!("#define {b}(x) x"), 3 => format!("#undef {b}"), 4 => format!("{b}"), 5 => format!("#define M <{b}>\nM"), 6 => format!("#ifdef NO\n#define {b} 1\n#endif"), _ => format!("#ifdef NO\n{b}\n#endif") };
        let g = run_file(&project(&[("config.cpp", &format!("{body}\nend\n"))])?, "config.cpp");
        o.steps(1);
        let real = b != "__OTHER__";
        let kept = matches!(BUILTINS.iter().position(|x| *x == b), Some(0..=8));
        let want = match how { 0..=2 if real => Some("PE6"), 4 | 5 if real && !kept => Some(if b == "__EXEC" { "PE25" } else { "PE26" }), _ => None };
        let got = g.as_ref().err().map(|e| err_at(e).0);
        ensure_eq!(got.as_deref(), want, "{body:?}");
        o.state((how, want));
        if let Ok(p) = &g { ensure!(p.as_str().ends_with("end\n"), "{body:?} gives {:?}", p.as_str()); }
        show_all(&g)
    });
    ck.explore("depth", "a chain of includes of every length around the limit, and a counter beyond 16 bits", (0..ck.t(70usize, 140)).collect::<Vec<_>>(), |&n, o| {
        if n < 69 || n > 69 {
            let names: Vec<String> = (0..=n).map(|i| format!("f{i}.hpp")).collect();
            let mut v: Vec<(String, String)> = names.iter().enumerate().map(|(i, x)| (x.clone(), if i < n { format!("#include \"f{}.hpp\"\nl{i}\n", i + 1) } else { "end\n".into() })).collect();
            v[0].0 = "config.cpp".into();
            let refs: Vec<(&str, &str)> = v.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let g = run_file(&project(&refs)?, "config.cpp");
            o.steps(n as u64); o.state(n);
            if n <= 64 {
                let p = g.map_err(|e| format!("{n} nested includes: {:?}", err_at(&e)))?;
                let want: String = std::iter::once("end\n".to_string()).chain((0..n).rev().map(|i| format!("l{i}\n"))).collect();
                ensure_eq!(p.as_str(), want, "{n} nested includes");
            }
        } else {
            let src = "__COUNTER__\n".repeat(70_000);
            let p = run_file(&project(&[("config.cpp", &src)])?, "config.cpp").map_err(|e| format!("{:?}", err_at(&e)))?;
            for (i, l) in p.as_str().lines().enumerate() { ensure_eq!(l, i.to_string(), "counter"); }
            o.steps(70_000); o.state(n);
        }
        Ok(())
    });
    // every character in front of the directive, every suffix behind it
    let pre = ["", " ", "\t", "/* c */", " /* a\nb */ "];
    let suf = ["", " ", " // c", "/* c */", " x"];
    ck.explore("lines", "every directive with white space and comments before and after it", product(&pre, &suf).into_iter().flat_map(|(p, s)| ["#include \"a.hpp\"", "#define D 1", "#undef D", "#ifdef D\n#endif", "#if D == 1\n#endif", "#ifndef D\n#else", "#pragma other x"].map(|d| (p, d, s))).collect::<Vec<_>>(), |(p, d, s), o| {
        let (d1, d2) = d.split_once('\n').unwrap_or((d, ""));
        let mut src = format!("#define D 1\n{p}{d1}{s}\n");
        if !d2.is_empty() { src += &format!("in\n{p}{d2}{s}\nelse\n"); if d2 == "#else" { src += "#endif\n"; } }
        src += "D after\n";
        let g = run_file(&project(&[("config.cpp", &src), ("a.hpp", "included\n")])?, "config.cpp");
        o.steps(1);
        if *s == " x" && !matches!(d1, "#define D 1" | "#pragma other x") { ensure!(g.is_err(), "text after the directive is accepted: {src:?}"); o.state("refused"); return show_all(&g); }
        let g = g.map_err(|e| format!("{src:?}: {:?}", err_at(&e)))?;
        let flat: Vec<String> = g.as_str().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
        let mut want: Vec<&str> = match *d { "#include \"a.hpp\"" => vec!["included"], "#ifdef D\n#endif" | "#if D == 1\n#endif" => vec!["in", "else"], "#ifndef D\n#else" => vec!["else"], _ => vec![] };
        let last = match (*d, *s) { ("#undef D", _) => "D after", ("#define D 1", " x") => "1 x after", _ => "1 after" };
        want.push(last);
        ensure_eq!(flat.iter().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect::<Vec<_>>(), want, "{src:?}");
        check_mapping(&g)?;
        o.state(&flat);
        Ok(())
    });
    // pragmas: suppression and flags by scope
    let lines = ["P", "L", "C", "FL", "FF", "FC", "call", "fcall", "inc", "incp", "blank"];
    ck.explore("pragmas", "every sequence of pragmas (suppress and flag, for a line, a file, the whole configuration), padded macro calls, an include that makes them and an include with pragmas of its own: exactly the calls that are not suppressed are warned about", seqs(&lines, 1, ck.t(4, 5)), |s, o| {
        let mut src = String::from("#define M(x) x\n#define ARR_1(x) x\n");
        let mut want: Vec<(String, usize)> = vec![];
        let (mut line, mut file, mut conf) = (false, false, false);
        let (mut fline, mut ffile, mut fconf) = (false, false, false);
        for (i, l) in s.iter().enumerate() {
            let n = i + 3;
            src += match *l {
                "P" => { line = true; "#pragma hemtt suppress pw3_padded_arg\n" }
                "L" => { file = true; "#pragma hemtt suppress pw3_padded_arg file\n" }
                "C" => { conf = true; "#pragma hemtt suppress pw3_padded_arg config\n" }
                "FL" => { fline = true; "#pragma hemtt flag pw3_ignore_format\n" }
                "FF" => { ffile = true; "#pragma hemtt flag pw3_ignore_format file\n" }
                "FC" => { fconf = true; "#pragma hemtt flag pw3_ignore_format config\n" }
                "call" => { if !(line || file || conf) { want.push(("/config.cpp".into(), n)); } line = false; fline = false; "M( 1)\n" }
                "fcall" => { if !(line || file || conf || fline || ffile || fconf) { want.push(("/config.cpp".into(), n)); } line = false; fline = false; "ARR_1( 1)\n" }
                "inc" => {
                    for (off, k) in [(conf, 1), (conf || fconf, 2)] { let w = ("/a.hpp".to_string(), k); if !off && !want.contains(&w) { want.push(w); } }
                    "#include \"a.hpp\"\n"
                }
                "incp" => "#include \"p.hpp\"\n",
                _ => { line = false; fline = false; "\n" }
            };
        }
        let p = run_file(&project(&[("config.cpp", &src), ("a.hpp", "M( 2)\nARR_1( 2)\n"), ("p.hpp", "#pragma hemtt suppress pw3_padded_arg config\n#pragma hemtt flag pw3_ignore_format file\nM( 3)\n#include \"a.hpp\"\n")])?, "config.cpp").map_err(|e| format!("{src:?}: {:?}", err_at(&e)))?;
        let g: Vec<(String, usize)> = warnings(&p).into_iter().filter(|w| w.0 == "PW3").map(|w| (w.1, w.2)).collect();
        ensure_eq!(g, want, "padded arguments reported in {src:?}");
        o.steps(s.len() as u64); o.state(g);
        Ok(())
    });
    let heads = ["ARR_", "TRACE_", "INFO_", "WARNING_", "ERROR_", "DEBUG_", "FORMAT_"];
    let mut names: Vec<(String, bool)> = vec![];
    for h in heads {
        for t in ["1", "", "X_2", "é"] { if t != "é" { names.push((format!("{h}{t}"), true)); } }
        for n in [h.trim_end_matches('_').to_string(), format!("M{h}1"), h.to_lowercase(), format!("{}1", h.trim_end_matches('_')), format!("_{h}")] { names.push((n, false)); }
    }
    for n in ["LOG_1", "QUOTE", "GVAR", "W", "ARRAY_", "TRACES_1", "ERRORS_1"] { names.push((n.into(), false)); }
    ck.explore("format-flag", "every macro name that is, or nearly is, one of the formatting macros x its scope of the flag x padded places: exactly the others are warned about", product(&names, &["", " file", " config", "-"]), |((n, fm), scope), o| {
        for (call, k) in [("( a)", 1), ("(a )", 1), ("( a )", 2), ("(a)", 0)] {
            let flag = if *scope == "-" { String::new() } else { format!("#pragma hemtt flag pw3_ignore_format{scope}\n") };
            let src = format!("#define {n}(x) x\n{flag}{n}{call}\n");
            let p = run_file(&project(&[("config.cpp", &src)])?, "config.cpp").map_err(|e| format!("{src:?}: {:?}", err_at(&e)))?;
            let g = warnings(&p).into_iter().filter(|w| w.0 == "PW3").count();
            ensure_eq!(g, if *fm && *scope != "-" { 0 } else { k }, "padded arguments reported in {src:?}");
            o.steps(1); o.state((g, *fm, *scope));
        }
        Ok(())
    });
    // white space around the arguments
    let pads = ["", " ", "\t", "  ", "a", " a", "a ", " a ", "a b", "(a)", " \"a\""];
    ck.explore("padding", "every pair of arguments with white space in every place, in two files alike and in a macro: each white space at the end of an argument is warned about once in each file", product(&pads, &pads).into_iter().flat_map(|(a, b)| (0..3).map(move |k| (a, b, k))).collect::<Vec<_>>(), |&(a, b, k), o| {
        let call = format!("M({a},{b})");
        let lead = match k { 0 => String::new(), 1 => "text ".to_string(), _ => "#define K() ".to_string() };
        let body = format!("{lead}{call}\n{}", if k == 2 { "K() K()\n" } else { "" });
        let files = [("config.cpp", "#define M(x,y) <x><y>\n#include \"a.hpp\"\n#undef K\n#include \"b.hpp\"\n"), ("a.hpp", &body), ("b.hpp", &body)];
        let p = run_file(&project(&files)?, "config.cpp").map_err(|e| format!("{body:?}: {:?}", err_at(&e)))?;
        let mut want = vec![];
        let base = lead.len() + 2;
        for f in ["/a.hpp", "/b.hpp"] {
            for (t, at) in [(a, base), (b, base + a.len() + 1)] {
                // white space is one token a character
                let c: Vec<char> = t.chars().collect();
                let (first, last) = (c.first().is_some_and(|c| c.is_whitespace()), c.last().is_some_and(|c| c.is_whitespace()));
                if first { want.push((f.to_string(), at)); }
                if last && !(first && c.len() == 1) { want.push((f.to_string(), at + c.len() - 1)); }
            }
        }
        let mut got: Vec<(String, usize)> = p.warnings().iter().filter(|w| w.ident() == "PW3").map(|w| w.token().map_or_else(Default::default, |t| (t.position().path().as_str().to_string(), t.position().start().column()))).collect();
        got.sort();
        ensure_eq!(got, want, "padded arguments of {body:?}");
        o.steps(1); o.state(&got);
        p.warnings().iter().try_for_each(|w| show(&**w))
    });
    // names of files
    let bits = ["a", "B", " ", ".", "-", "_", "9", "é", "'", "+", "(", ")", "[", "]", "&", "$", "#", "M", "##", ","];
    ck.explore("filenames", "every file and folder name of up to the bound of significant characters, some of which are the name of a macro, in quotes and in angle brackets: the file is included", seqs(&bits, 1, ck.t(3, 4)), |v, o| {
        let n = v.concat();
        if n.starts_with(' ') || n.ends_with(' ') || n.trim_matches('.').is_empty() || n.starts_with('.') || n.ends_with('.') { return Ok(()); }
        for (l, r) in [('"', '"'), ('<', '>')] {
            let src = format!("#define M bad\n#include {l}{n}.hpp{r}\n#include {l}{n}\\{n}{r}\nend\n");
            let p = run_file(&project(&[("config.cpp", &src), (&format!("{n}.hpp"), "one\n"), (&format!("{n}/{n}"), "two\n")])?, "config.cpp").map_err(|e| format!("{src:?}: {:?}", err_at(&e)))?;
            ensure_eq!(p.as_str().split_whitespace().collect::<Vec<_>>(), ["one", "two", "end"], "{src:?}");
            check_mapping(&p)?;
        }
        o.steps(2); o.state(&n);
        Ok(())
    });
    ck.explore("names", "the warnings about the case of file names", vec![("config.cpp", "a.hpp"), ("Config.cpp", "a.hpp"), ("script.sqf", "sub/../a.hpp")], |(main, inc), o| {
        let src = format!("#include \"{inc}\"\n");
        let p = run_file(&project(&[(main, &src), ("a.hpp", "x\n")])?, main).map_err(|e| format!("{:?}", err_at(&e)))?;
        let got: BTreeSet<String> = p.warnings().iter().map(|w| w.ident().to_string()).collect();
        let mut want = BTreeSet::new();
        if *main == "Config.cpp" { want.insert("PW2".to_string()); }
        ensure_eq!(got, want, "warnings of {main} including {inc}");
        o.steps(1); o.state(want);
        p.warnings().iter().try_for_each(|w| show(&**w))
    });
}

// ------------------------------------------------------------------ C04 text and comments
/// What remains of text without directives and macros: the comments are gone, escaped newlines
/// are joined, everything else is untouched.
pub fn ref_strip(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut out: Vec<char> = vec![];
    let (mut i, mut quote) = (0, '\0');
    while i < c.len() {
        if quote == '\0' && at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && at(i) != '\n' && at(i) != '\r' { i += 1; }
            continue;
        }
        if quote == '\0' && at(i) == '/' && at(i + 1) == '*' {
            let mut j = i + 2;
            while j < c.len() && !(at(j) == '*' && at(j + 1) == '/') { j += 1; }
            if j < c.len() { i = j + 2; continue; }
        }
        if at(i) == '\n' || at(i) == '\r' {
            i += if at(i) == '\r' && at(i + 1) == '\n' { 2 } else { 1 };
            if out.last() == Some(&'\\') { out.pop(); } else { out.push('\n'); }
            continue;
        }
        if at(i) == quote { quote = '\0'; } else if quote == '\0' && (at(i) == '"' || at(i) == '\'') { quote = at(i); }
        out.push(at(i));
        i += 1;
    }
    out.into_iter().collect()
}
pub fn text_check(ck: &Ck) {
    ck.assume("comments end at the first */; single and double quotes both make strings, an unterminated string lasts to the end of the file");
    let text = |s: &str, o: &mut Obs| -> R {
        let p = run_file(&project(&[("config.cpp", s)])?, "config.cpp").map_err(|e| format!("{s:?} is refused: {:?}", err_at(&e)))?;
        ensure_eq!(p.as_str(), ref_strip(s), "output of {s:?}");
        check_mapping(&p).map_err(|e| format!("{s:?}: {e}"))?;
        o.steps(s.len() as u64); o.state(p.as_str());
        Ok(())
    };
    let a = ["a", "/", "*", "\"", "'", "\n", "\\", " ", "é"];
    ck.explore("characters", "every text over {a, /, *, \", ', newline, \\, space, é} up to the bound", seqs(&a, 0, ck.t(6, 7)), |s, o| text(&s.concat(), o));
    let b = ["//", "/*", "*/", "\"", "'", "\n", "x"];
    ck.explore("comments", "every longer sequence of comment and string delimiters", seqs(&b, 5, ck.t(7, 8)), |s, o| text(&s.concat(), o));
    let d = ["word", "1", ".5", "<", ">", "=", "(", ")", ",", ";", "{", "}", "[", "]", "_x9", "\r\n", "\t", "#1", "- ", "🤔", "×"];
    ck.explore("tokens", "every sequence of the other tokens up to the bound", seqs(&d, 0, ck.t(4, 5)), |s, o| text(&s.concat(), o));
    ck.explore("positions", "comments, strings, escaped newlines and macros between text on several lines: every character maps back to where it came from", seqs(&["/* c */", "/* a\nb\n*/", "// e\n", "\"s 's /*\"", "'q \"'", "\n", "w ", "é", "\\\n", "\r\n", "M", "F(1,w)"], 1, ck.t(4, 5)), |s, o| {
        let src = format!("#define M mm\n#define F(x,y) x#y\n{}", s.concat());
        let Ok(p) = run_file(&project(&[("config.cpp", &src)])?, "config.cpp") else { return Ok(()) };
        check_mapping(&p).map_err(|e| format!("{src:?}: {e}"))?;
        o.steps(s.len() as u64); o.state(p.as_str());
        Ok(())
    });
}

// ------------------------------------------------------------------ C05 anything at all
pub fn total_check(ck: &Ck) {
    ck.assume("input is valid UTF-8 of at most a few dozen characters");
    let any = |files: &[(&str, &str)], o: &mut Obs| -> R {
        let ws = project(files)?;
        let r = run_file(&ws, "config.cpp");
        show_all(&r).map_err(|e| format!("{files:?}: {e}"))?;
        let sum = |r: &Result<Processed, Error>| match r { Ok(p) => (p.as_str().to_string(), warnings(p)), Err(e) => (String::new(), vec![err_at(e)]) };
        let a = sum(&r);
        let again = sum(&run_file(&ws, "config.cpp"));
        ensure_eq!(a, again, "second run of {files:?}");
        if let Ok(p) = &r { check_mapping_total(p)?; }
        o.steps(1); o.state(&a);
        Ok(())
    };
    let t = ["#", "##", "define ", "A", "F", "(", ")", ",", "\n", "\"", "//", "/*", "*/", "\\\n", " ", "1"];
    ck.explore("tokens", "every sequence over {#, ##, define, A, F, parentheses, comma, newline, quote, comment delimiters, escaped newline, space, 1} up to the bound, after definitions of A and F: the preprocessor ends, does not crash, gives the same result again, and every error can be shown", seqs(&t, 0, ck.t(5, 6)), |s, o| {
        let src = format!("#define A F(1)\n#define F(x) x A\n{}", s.concat());
        any(&[("config.cpp", &src)], o)
    });
    let d = ["#define ", "#undef ", "#if ", "#ifdef ", "#else", "#endif", "#include ", "#pragma hemtt ", "A", "F(", ")", "\n", "\"", "<a.hpp>", "== ", "1", "suppress ", "flag ", "__EXEC", "__EVAL(", "__has_include", "__LINE__", "file", "pw3_padded_arg ", "\\\n", "é"];
    ck.explore("directives", "every sequence over the directives, their operands and everything that can go wrong in them, up to the bound", seqs(&d, 0, ck.t(4, 5)), |s, o| {
        let src = s.concat();
        any(&[("config.cpp", &src), ("a.hpp", "#define A 1\n#ifdef A")], o)
    });
    let m = ["A ", "B ", "F(", "G(", "x", ",", ")", "#", "##", "\"", "1"];
    let bodies: Vec<String> = seqs(&m, 0, ck.t(4, 5)).map(|v: Vec<&str>| v.concat()).collect();
    let uses = ["A", "B", "F(A)", "G(B,A)", "F(F(F(1)))"];
    ck.explore("bodies", "every macro body over {A, B, F(, G(, x, comma, ), #, ##, quote, 1} up to the bound, as the body of an object macro and of a function macro, used five ways", bodies, |b, o| {
        for u in uses {
            any(&[("config.cpp", &format!("#define B A\n#define A {b}\n#define F(x) x\n#define G(x,y) F(y)A\n{u}\n"))], o)?;
            any(&[("config.cpp", &format!("#define B F(A)\n#define A 1\n#define F(x) {b}\n#define G(x,y) F(y)A\n{u}\n"))], o)?;
        }
        Ok(())
    });
    // directives inside of macros
    let md = ["#define ", "#undef ", "#if ", "#ifdef ", "#else", "#endif", "#include ", "#pragma ", "hemtt ", "suppress ", "A ", "1 ", "== ", "\"a.hpp\"", "<a.hpp", "\\\n", "F(", ")"];
    ck.explore("directives-in-bodies", "every macro body of directives and their operands up to the bound, used as an object macro, in a function macro and as an argument", seqs(&md, 1, ck.t(4, 5)), |b, o| {
        let b = b.concat();
        any(&[("config.cpp", &format!("#define A 1\n#define B {b}\nB\n")), ("a.hpp", "inc\n")], o)?;
        any(&[("config.cpp", &format!("#define A 1\n#define F(x) {b}\nF(\n{b})\nlast\n")), ("a.hpp", "inc\n")], o)
    });
    // unfinished input: every prefix of a file that uses everything
    let whole = "// head\n#include \"a.hpp\"\n#define A 1\n#define F(x,y) #x##y \\\n more x\n#pragma hemtt suppress pw3_padded_arg file\n#if A == 1\nclass X { v = F(A, \"b\"); };\n#else\n/* c */\n#endif\n#ifdef F\nn[] = {__LINE__, 'é'};\n#undef F\n#endif\n#if A\nx\n#endif\n#ifndef Z\n#endif\n";
    ck.explore("prefixes", "every prefix of a file that uses every construct, and the file with each character removed, doubled or replaced", (0..whole.len() * 4).collect::<Vec<_>>(), |&i, o| {
        let (k, i) = (i % 4, i / 4);
        if !whole.is_char_boundary(i) { return Ok(()); }
        let next = whole[i..].chars().next().map_or(i, |c| i + c.len_utf8());
        let s = match k { 0 => whole[..i].to_string(), 1 => format!("{}{}", &whole[..i], &whole[next..]), 2 => format!("{}{}", &whole[..next], &whole[i..]), _ => format!("{}#{}", &whole[..i], &whole[next..]) };
        any(&[("config.cpp", &s), ("a.hpp", "inc\n")], o)
    });
}
/// mappings exist for every character, whatever the text
fn check_mapping_total(p: &Processed) -> R {
    let n = p.as_str().chars().count();
    for i in 0..n {
        let m = p.mapping(i).ok_or_else(|| format!("no mapping at {i} of {:?}", p.as_str()))?;
        let (_, src) = p.source(m.source()).ok_or("no source")?;
        ensure!(src.get(m.original_start()..m.original_end()).is_some(), "mapping at {i} of {:?} is out of its source", p.as_str());
    }
    Ok(())
}
