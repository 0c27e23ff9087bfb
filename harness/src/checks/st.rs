//! Stringtables: sorting keeps every text, key, package and comment; coverage; the lint.

use hemtt_stringtable::{Package, Project, Totals};

use crate::fw::*;
use crate::{ensure, ensure_eq};

// ------------------------------------------------------------------ an independent reader of XML
#[derive(Clone, Debug, PartialEq)]
enum X { El(String, Vec<(String, String)>, Vec<X>), Text(String), Comment(String) }
struct Rd<'a> { s: &'a str, i: usize }
impl Rd<'_> {
    fn rest(&self) -> &str { &self.s[self.i..] }
    fn eat(&mut self, t: &str) -> bool { if self.rest().starts_with(t) { self.i += t.len(); true } else { false } }
    fn until(&mut self, t: &str) -> Result<String, String> { let n = self.rest().find(t).ok_or(format!("no {t:?} after {}", self.i))?; let r = self.rest()[..n].to_string(); self.i += n + t.len(); Ok(r) }
    fn ws(&mut self) { while self.rest().starts_with(char::is_whitespace) { self.i += self.rest().chars().next().unwrap().len_utf8(); } }
    fn name(&mut self) -> Result<String, String> { let n = self.rest().find(|c: char| !(c.is_alphanumeric() || "_-.:".contains(c))).unwrap_or(self.rest().len()); if n == 0 { return Err(format!("no name at {}", self.i)); } let r = self.rest()[..n].to_string(); self.i += n; Ok(r) }
    fn text(t: &str, attr: bool) -> Result<String, String> {
        let (mut o, mut r) = (String::new(), t);
        while let Some(p) = r.find('&') {
            o += &r[..p];
            let e = r[p..].find(';').ok_or("a lone &")?;
            let n = &r[p + 1..p + e];
            o.push(match n { "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'', _ => n.strip_prefix("#x").map(|h| u32::from_str_radix(h, 16)).or_else(|| n.strip_prefix('#').map(str::parse)).and_then(Result::ok).and_then(char::from_u32).ok_or(format!("unknown &{n};"))? });
            r = &r[p + e + 1..];
        }
        o += r;
        if t.contains('<') || !attr && t.contains("]]>") { return Err(format!("malformed text {t:?}")); }
        Ok(o)
    }
    fn nodes(&mut self, within: Option<&str>) -> Result<Vec<X>, String> {
        let mut v: Vec<X> = vec![];
        let mut t = String::new();
        loop {
            let before = t.len();
            let n = self.rest().find('<').unwrap_or(self.rest().len());
            t += &Self::text(&self.rest()[..n], false)?;
            self.i += n;
            let _ = before;
            if self.eat("<![CDATA[") { t += &self.until("]]>")?; continue; }
            if self.eat("<!--") { if !t.is_empty() { v.push(X::Text(std::mem::take(&mut t))); } let c = self.until("-->")?; if c.contains("--") || c.ends_with('-') { return Err("-- in a comment".into()); } v.push(X::Comment(c)); continue; }
            if !t.is_empty() { v.push(X::Text(std::mem::take(&mut t))); }
            if self.rest().is_empty() { return if within.is_none() { Ok(v) } else { Err("unclosed".into()) }; }
            if self.eat("</") { let n = self.name()?; self.ws(); if !self.eat(">") || within != Some(&n) { return Err(format!("wrong end {n}")); } return Ok(v); }
            if self.eat("<?") { self.until("?>")?; continue; }
            if !self.eat("<") { return Err("?".into()); }
            let name = self.name()?;
            let mut attrs: Vec<(String, String)> = vec![];
            loop {
                let at = self.i;
                self.ws();
                if self.eat("/>") { v.push(X::El(name, attrs, vec![])); break; }
                if self.eat(">") { let kids = self.nodes(Some(&name))?; v.push(X::El(name, attrs, kids)); break; }
                if at == self.i { return Err("attribute without space".into()); }
                let a = self.name()?;
                self.ws();
                if !self.eat("=") { return Err("attribute without =".into()); }
                self.ws();
                let q = if self.eat("\"") { "\"" } else if self.eat("'") { "'" } else { return Err("attribute without quote".into()) };
                let val = Self::text(&self.until(q)?, true)?;
                if attrs.iter().any(|x| x.0 == a) { return Err("attribute twice".into()); }
                attrs.push((a, val));
            }
        }
    }
}

// ------------------------------------------------------------------ what a stringtable says
pub const LANGS: [&str; 24] = ["Original", "English", "Czech", "French", "Spanish", "Italian", "Polish", "Portuguese", "Russian", "German", "Korean", "Japanese", "Chinese", "Chinesesimp", "Turkish", "Swedish", "Slovak", "Serbocroatian", "Norwegian", "Icelandic", "Hungarian", "Greek", "Finnish", "Dutch"];
#[derive(Clone, PartialEq, Default)]
struct N { tag: String, name: String, text: String, before: Vec<String>, kids: Vec<N>, tail: Vec<String> }
impl std::fmt::Debug for N {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for b in &self.before { write!(f, "<!{b:?}>")?; }
        write!(f, "{}", self.tag)?;
        if !self.name.is_empty() { write!(f, " {:?}", self.name)?; }
        if !self.text.is_empty() { write!(f, "={:?}", self.text)?; }
        if !self.kids.is_empty() || !self.tail.is_empty() { write!(f, "{{")?; for k in &self.kids { write!(f, "{k:?};")?; } for b in &self.tail { write!(f, "<!{b:?}>")?; } write!(f, "}}")?; }
        Ok(())
    }
}
fn meaning(tag: &str, name: String, x: &[X]) -> Result<N, String> {
    let mut n = N { tag: tag.into(), name, ..N::default() };
    let mut wait = vec![];
    for (i, k) in x.iter().enumerate() {
        match k {
            X::Comment(c) => {
                // at the end of the line of an element: belongs to it
                let blank = |j: usize| x.get(j).map_or(Some(true), |t| match t { X::Text(t) => { let l = t.split('\n').next().unwrap(); if l.trim().is_empty() { if t.contains('\n') { Some(true) } else { None } } else { Some(false) } } _ => Some(false) });
                let same_line = (i >= 1 && matches!(x[i - 1], X::El(..))) || (i >= 2 && matches!(&x[i - 1], X::Text(t) if !t.contains('\n')) && matches!(x[i - 2], X::El(..)));
                let ends = blank(i + 1).unwrap_or(tag.is_empty() && i + 2 == x.len()) && (i + 1 < x.len() || tag.is_empty());
                if same_line && ends { n.kids.last_mut().unwrap().before.push(c.clone()); } else { wait.push(c.clone()); }
            }
            X::Text(t) => if LANGS.contains(&tag) { n.text += t; } else if !t.trim().is_empty() { return Err(format!("text {t:?} in {tag}")); },
            X::El(t, a, kids) => {
                let (t, key) = match (tag, t.as_str()) { ("", "Project") | ("Project", "Package") | ("Package" | "Container", "Container") => (t.clone(), Some("name")), ("Package" | "Container", "Key") => (t.clone(), Some("ID")), ("Key", l) => (LANGS.iter().find(|x| **x == l || x.to_lowercase() == l || x.to_uppercase() == l).ok_or(format!("language {l}"))?.to_string(), None), _ => return Err(format!("{t} in {tag}")) };
                let name = match key { Some(k) => a.iter().find(|a| a.0 == k).ok_or("no name")?.1.clone(), None => String::new() };
                let mut c = meaning(&t, name, kids)?;
                c.before = std::mem::take(&mut wait);
                if tag == "Key" { let t = std::mem::take(&mut c.tail); c.before.extend(t); }
                n.kids.push(c);
            }
        }
    }
    n.tail = wait;
    Ok(n)
}
fn read(s: &str) -> Result<N, String> {
    let s = s.replace("\r\n", "\n");
    let s = s.strip_prefix('\u{feff}').unwrap_or(&s).to_string();
    let n = meaning("", String::new(), &Rd { s: &s, i: 0 }.nodes(None)?)?;
    if n.kids.len() == 1 { Ok(n) } else { Err("not one project".into()) }
}
/// Languages in the order of the table; if asked everything else by name
fn order(n: &mut N, names: bool) {
    for k in &mut n.kids { order(k, names); }
    if n.tag == "Key" { n.kids.sort_by_key(|k| LANGS.iter().position(|l| *l == k.tag)); }
    else if names { n.kids.sort_by(|a, b| (a.tag == "Container").cmp(&(b.tag == "Container")).then_with(|| a.name.cmp(&b.name))); }
    else { n.kids.sort_by_key(|k| k.tag == "Container"); }
}
fn sorted(text: &str, names: bool) -> Result<Option<(Project, String)>, String> {
    no_panic(|| {
        let mut p = match Project::from_reader(std::io::BufReader::new(text.as_bytes())) { Ok(p) => p, Err(_) => return Ok(None) };
        if names { p.sort(); }
        let mut out = String::new();
        p.to_writer(&mut out).map_err(|e| e.to_string())?;
        Ok(Some((p, out)))
    })?
}
fn keeps(text: &str, o: &mut Obs) -> R {
    let Ok(want) = read(text) else { return Err(format!("harness: {text:?} is no stringtable: {:?}", read(text))) };
    for names in [true, false] {
        let Some((_, out)) = sorted(text, names)? else { return Err(format!("{text:?} is refused")) };
        let mut want = want.clone();
        order(&mut want, names);
        let got = read(&out).map_err(|e| format!("{text:?} became {out:?}, which is not well formed: {e}"))?;
        ensure!(got == want, "{text:?} became {out:?}\n {got:?}\n expected\n {want:?}");
        let Some((_, again)) = sorted(&out, names)? else { return Err(format!("{text:?} became {out:?}, which is refused")) };
        ensure!(again == out, "{text:?} became {out:?}, then {again:?}");
        o.steps(2);
    }
    o.state(format!("{want:?}"));
    Ok(())
}

pub fn text_check(ck: &Ck) {
    let head = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
    let bits = ["a", " ", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#228;", "\"", "'", ">", "é", "\n", "\t", "<![CDATA[b&<]]>", "<![CDATA[&amp;]]>", "%1", "<!-- c&d -->", "]]"];
    ck.explore("texts", "every sequence of significant pieces as the text of a language, alone and within another text", seqs(&bits, 0, ck.t(4, 5)).filter(|v| !v.windows(2).any(|w| w[0] == "]]" && w[1] == ">")), |v, o| {
        keeps(&format!("{head}<Project name=\"p\">\n<Package name=\"q\">\n<Key ID=\"k\">\n<German>{0}</German>\n<English>b</English>\n<Original>x{0}x</Original>\n</Key>\n</Package>\n</Project>\n", v.concat()), o)
    });
    let nbits = ["a", " ", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#228;", "'", ">", "é", "B", "_1", "."];
    ck.explore("names", "every sequence of significant pieces as the name of the project, a package, a container and a key, in both kinds of quotes", seqs(&nbits, 0, ck.t(4, 5)), |v, o| {
        let t = v.concat();
        keeps(&format!("{head}<Project name=\"{t}\">\n<Package name=\"{t}\">\n<Key ID=\"{t}\">\n<German>a</German>\n</Key><Container name=\"{t}\"><Key ID=\"{t}\"><English>x</English></Key></Container>\n</Package>\n</Project>\n"), o)?;
        if t.contains('\'') { return Ok(()); }
        let t = t.replace('B', "\"");
        keeps(&format!("{head}<Project name='{t}'>\n<Package name = '{t}' ><!-- c -->\n<Key ID='{t}'>\n<German>a</German>\n<!-- d --></Key>\n</Package>\n</Project>\n"), o)
    });
}
const TAILS: [&str; 5] = ["", "\n", " ", "\n\n  ", "\r\n\t"];
pub fn order_check(ck: &Ck) {
    // every tree over the tokens
    let al = ["K2", "K1", "k10", "CB", "CA", "/"];
    let ok = |v: &Vec<&str>| { let mut d = 0i32; for x in v { match *x { "/" => { d -= 1; if d < 0 { return false; } } "CB" | "CA" => d += 1, _ => {} } } d == 0 };
    let body = |v: &[&str], sep: &str| -> String { let mut s = String::new(); for x in v { match *x { "/" => s += "</Container>", "CB" => s += "<Container name=\"B\">", "CA" => s += "<Container name=\"A\">", k => s += &format!("<Key ID=\"{k}\"><German>g {k}</German><Original>o</Original></Key>") } s += sep; } s };
    // keys and containers can not alternate: such a file is refused
    fn alternates(n: &N) -> bool { let mut w = n.kids.iter().map(|k| k.tag.clone()).collect::<Vec<_>>(); w.dedup(); w.len() > 2 || n.kids.iter().any(alternates) }
    ck.explore("trees", "every tree of keys and containers up to the bound in two packages x what stands between: sorted by name at every level, nothing lost", product(&seqs(&al, 0, ck.t(7, 8)).filter(ok).collect::<Vec<_>>(), &(0..2usize).collect::<Vec<_>>()), |(v, two), o| {
        let sep = TAILS[v.len() % 5];
        let b = body(v, sep);
        let t = format!("<Project name=\"p\">{sep}<Package name=\"b\">{sep}{b}</Package>{}{sep}</Project>{sep}", if *two == 1 { format!("<Package name=\"Z\">{b}</Package><Package name=\"a\"/>") } else { String::new() });
        let n = read(&t)?;
        if alternates(&n) { o.steps(1); match sorted(&t, true)? { None => return Ok(()), Some(_) => {} } }
        keeps(&t, o)
    });
    ck.explore("languages", "every ordered choice of up to 3 (thorough: 4) languages in the three ways to spell them, full, empty and closed at once: in the order of the table", seqs(&(0..24usize).collect::<Vec<_>>(), 0, ck.t(4, 4)).filter(|v| v.iter().enumerate().all(|(i, x)| !v[..i].contains(x))), |v, o| {
        let el = |i: usize, how: usize| { let l = LANGS[i]; let l = match how % 3 { 0 => l.to_string(), 1 => l.to_lowercase(), _ => l.to_uppercase() }; match how / 3 % 3 { 0 => format!("<{l}>t {i}</{l}>"), 1 => format!("<{l}></{l}>"), _ => format!("<{l}/>") } };
        let h = v.iter().sum::<usize>();
        let t = format!("<Project name=\"p\"><Package name=\"q\">\n<Key ID=\"k\">\n{}\n</Key>\n</Package></Project>", v.iter().enumerate().map(|(k, i)| el(*i, h + k * 4)).collect::<Vec<_>>().join("\n"));
        keeps(&t, o)
    });
    ck.explore("all-languages", "all languages at once in every rotation, forwards and backwards", 0..48usize, |r, o| {
        let mut v: Vec<&str> = LANGS.to_vec();
        v.rotate_left(r % 24);
        if *r >= 24 { v.reverse(); }
        keeps(&format!("<Project name=\"p\"><Package name=\"q\"><Key ID=\"k\">{}</Key></Package></Project>", v.iter().map(|l| format!("<{l}>{l}</{l}>\n")).collect::<String>()), o)
    });
}
pub fn comment_check(ck: &Ck) {
    let toks = ["<?xml version=\"1.0\"?>", "<Project name=\"p\">", "<Package name=\"b\">", "<Key ID=\"y\">", "<German>g</German>", "<English>e</English>", "</Key>", "<Key ID=\"x\">", "<German>g</German>", "<english/>", "</Key>", "<Container name=\"d\">", "<Key ID=\"y\">", "<English>e</English>", "</Key>", "</Container>", "<Container name=\"c\">", "</Container>", "</Package>", "<Package name=\"a\">", "<Key ID=\"y\">", "</Key>", "<Key ID=\"y\">", "<English>\n  <!-- within -->\n e\n</English>", "</Key>", "</Package>", "</Project>"];
    let texts = ["<!-- one -->", "<!--two\n     lines-->", "<!-- <Key ID=\"y\">\n <English>&x</English></Key> -->", "<!--a-->\n\n<!--b-->", "<!---->", "<!-- é\n-->  <!-- x -->"];
    let lays: [(&str, &str, &str); 6] = [("\n", "", "\n"), ("\n", "\n", "\n"), ("\n", "\n\n", "\n\n  "), ("", "", ""), (" ", " ", "\n"), ("\n    ", "", "\n    ")];
    // separator between tokens, what follows the comment, what stands before it
    let build = |at: &[(usize, usize)], lay: usize| -> String {
        let (sep, after, before) = lays[lay];
        let mut s = String::new();
        for (i, t) in toks.iter().enumerate() {
            for (p, c) in at { if *p == i { s += before; s += texts[*c]; s += after; } }
            s += t;
            s += sep;
        }
        for (p, c) in at { if *p == toks.len() { s += before; s += texts[*c]; s += after; } }
        s
    };
    let places: Vec<(usize, usize)> = (1..=toks.len()).flat_map(|p| (0..texts.len()).map(move |c| (p, c))).collect();
    ck.explore("one", "a comment of six kinds at every place of a stringtable x six layouts: kept once, with what it stands before or behind", product(&places, &(0..6usize).collect::<Vec<_>>()), |(p, l), o| keeps(&build(&[*p], *l), o));
    let places2 = places.clone();
    ck.explore("two", "every two comments at every two places x six layouts", product(&product(&places2, &places2), &(0..6usize).collect::<Vec<_>>()), |((p, q), l), o| keeps(&build(&[*p, *q], *l), o));
    ck.explore("same", "the same comment at every two or three places", seqs(&(1..=toks.len()).collect::<Vec<_>>(), 2, ck.t(3, 4)), |v, o| { let at: Vec<(usize, usize)> = v.iter().map(|p| (*p, 0)).collect(); for l in [0, 3] { keeps(&build(&at, l), o)?; } Ok(()) });
}
fn count(n: &N, key: &mut usize, lang: &mut [usize; 24]) {
    if n.tag == "Key" { *key += 1; for k in &n.kids { lang[LANGS.iter().position(|l| *l == k.tag).unwrap()] += 1; } }
    for k in &n.kids { count(k, key, lang); }
}
fn of(t: &Totals) -> [u32; 24] { [t.original(), t.english(), t.czech(), t.french(), t.spanish(), t.italian(), t.polish(), t.portuguese(), t.russian(), t.german(), t.korean(), t.japanese(), t.chinese(), t.chinesesimp(), t.turkish(), t.swedish(), t.slovak(), t.serbocroatian(), t.norwegian(), t.icelandic(), t.hungarian(), t.greek(), t.finnish(), t.dutch()] }
fn totals(text: &str, o: &mut Obs) -> R {
    let mut want = read(text)?;
    order(&mut want, false);
    let p = no_panic(|| Project::from_reader(std::io::BufReader::new(text.as_bytes())))?.map_err(|e| format!("{text:?} is refused: {e}"))?;
    let mut all = Totals::default();
    let (mut keys, mut langs) = (0, [0; 24]);
    ensure_eq!(p.packages().len(), want.kids[0].kids.len(), "packages of {text:?}");
    for (q, w) in p.packages().iter().zip(&want.kids[0].kids) {
        let (mut k, mut l) = (0, [0; 24]);
        count(w, &mut k, &mut l);
        let t: Totals = q.totals();
        ensure_eq!((t.total() as usize, of(&t).map(|x| x as usize)), (k, l), "totals of {} in {text:?}", q.name());
        keys += k;
        for i in 0..24 { langs[i] += l[i]; }
        all.merge(&t);
        fn same(q: &Package, w: &N) -> R { ensure_eq!(q.name(), w.name, "name"); ensure_eq!(q.keys().iter().map(|k| k.id().to_string()).chain(q.containers().iter().map(|c| c.name().to_string())).collect::<Vec<_>>(), w.kids.iter().map(|k| k.name.clone()).collect::<Vec<_>>(), "children of {}", w.name); for (c, x) in q.containers().iter().zip(w.kids.iter().filter(|k| k.tag == "Container")) { same(c, x)?; } Ok(()) }
        same(q, w)?;
    }
    ensure_eq!((all.total() as usize, of(&all).map(|x| x as usize)), (keys, langs), "totals of {text:?}");
    o.steps(1);
    o.state(format!("{keys} {langs:?}"));
    Ok(())
}
pub fn coverage_check(ck: &Ck) {
    use hemtt_stringtable::analyze::{lint_all, lint_one};
    let al: Vec<(&str, Vec<usize>)> = vec![("k", vec![]), ("k", vec![0]), ("k", vec![1, 9]), ("k", (0..24).collect()), ("c", vec![]), ("/", vec![]), ("p", vec![])];
    let ok = |v: &Vec<usize>| { let mut d = 0i32; for x in v { match al[*x].0 { "/" => { d -= 1; if d < 0 { return false; } } "c" => d += 1, "p" if d > 0 => return false, _ => {} } } d == 0 };
    let text = |v: &[usize]| { let mut s = String::from("<Project name=\"p\"><Package name=\"p\">"); for (i, x) in v.iter().enumerate() { match al[*x].0 { "/" => s += "</Container>", "c" => s += &format!("<Container name=\"c{i}\">"), "p" => s += &format!("</Package><Package name=\"p{i}\">"), _ => s += &format!("<Key ID=\"k{i}\">{}</Key>", al[*x].1.iter().enumerate().map(|(j, l)| if j % 3 == 2 { format!("<{}/>", LANGS[*l]) } else { format!("<{0}>t</{0}>", LANGS[*l]) }).collect::<String>()) } } s + "</Package></Project>" };
    fn alternates(n: &N) -> bool { let mut w = n.kids.iter().map(|k| k.tag.clone()).collect::<Vec<_>>(); w.dedup(); w.len() > 2 || n.kids.iter().any(alternates) }
    ck.explore("totals", "every tree of packages, containers and keys with no, some and all languages up to the bound: the totals of every package and of all", seqs(&(0..al.len()).collect::<Vec<_>>(), 0, ck.t(7, 8)).filter(ok), |v, o| {
        let t = text(v);
        if alternates(&read(&t)?) { o.steps(1); return Ok(()); }
        totals(&t, o)
    });
    ck.explore("languages", "every one and every two languages in the three ways to spell them: counted as what they are", seqs(&(0..72usize).collect::<Vec<_>>(), 1, 2).filter(|v| v.len() == 1 || v[0] % 24 != v[1] % 24), |v, o| {
        let l: String = v.iter().map(|x| { let l = LANGS[x % 24]; let l = match x / 24 { 0 => l.to_string(), 1 => l.to_lowercase(), _ => l.to_uppercase() }; format!("<{l}>t</{l}>") }).collect();
        totals(&format!("<Project name=\"p\"><Package name=\"q\"><Key ID=\"k\">{l}</Key><Key ID=\"j\"/></Package></Project>"), o)
    });
    // the lint agrees with sorting
    let file = |keys: [&str; 2], langs: [&str; 2], pad: &str| format!("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"p\">\n    <Package name=\"q\">\n{}    </Package>\n</Project>\n", keys.iter().map(|k| format!("{pad}        <Key ID=\"{k}\">\n{}        </Key>\n", langs.iter().map(|l| format!("            <{l}>t</{l}>\n")).collect::<String>())).collect::<String>());
    // text, in order, languages in order
    let files = [(file(["a", "b"], ["English", "German"], ""), true, true), (file(["b", "a"], ["English", "German"], ""), false, true), (file(["a", "b"], ["German", "English"], ""), false, false), (file(["a", "b"], ["English", "German"], " "), false, false), (file(["a", "b"], ["English", "German"], "").trim_end().to_string(), true, true)];
    let conf = ["", "[lints.stringtables]\nsorted = \"Error\"", "[lints.stringtables]\nsorted = \"Warning\"", "[lints.stringtables.sorted]\nenabled = true\noptions.only-lang = true", "[lints.stringtables.sorted]\nenabled = true\nseverity = \"Error\"\noptions.only-lang = false", "[lints.stringtables]\nsorted = false"];
    ck.explore("lint", "every list of up to 5 files that are in order or not in one of four ways x six settings: exactly those that sorting would change are reported, each or together when there are more than three, with the severity that is set", product(&seqs(&(0..5usize).collect::<Vec<_>>(), 0, ck.t(5, 6)).collect::<Vec<_>>(), &(0..conf.len()).collect::<Vec<_>>()), |(v, c), o| {
        let pc = super::common::project(conf[*c])?;
        let ws = super::pre::project(&[("a.xml", "a")])?;
        let data = v.iter().enumerate().map(|(i, f)| { let t = files[*f].0.clone(); Ok((Project::from_reader(std::io::BufReader::new(t.as_bytes())).map_err(|e| e.to_string())?, ws.join(format!("f{i}/stringtable.xml")).map_err(|e| e.to_string())?, t)) }).collect::<Result<Vec<_>, String>>()?;
        let codes = no_panic(|| lint_all(&data, Some(&pc)))?;
        o.steps(1);
        let bad: Vec<usize> = if *c == 5 { vec![] } else { v.iter().enumerate().filter(|(_, f)| !if *c == 3 { files[**f].2 } else { files[**f].1 }).map(|x| x.0).collect() };
        let want = if bad.len() <= 3 { bad.len() } else { 1 };
        ensure_eq!(codes.len(), want, "{v:?} with {:?}", conf[*c]);
        for (i, code) in codes.iter().enumerate() {
            ensure_eq!(code.ident(), "L-L01", "code");
            let sev = if matches!(c, 1 | 4) { codespan_reporting::diagnostic::Severity::Error } else { codespan_reporting::diagnostic::Severity::Warning };
            ensure_eq!(code.severity(), sev, "severity with {:?}", conf[*c]);
            let d = code.diagnostic().ok_or("no diagnostic")?;
            ensure_eq!(d.severity, sev, "severity of the diagnostic");
            if bad.len() <= 3 { ensure!(code.message().contains(&format!("f{}/stringtable.xml", bad[i])), "{v:?}: {}", code.message()); } else { ensure!(code.message().contains(&bad.len().to_string()), "{v:?}: {}", code.message()); }
            ensure_eq!(code.help().unwrap_or_default().contains("only-lang"), *c == 3, "help");
        }
        for d in &data { ensure_eq!(lint_one(d, Some(&pc)).len(), 0, "lint of one file"); }
        o.state(format!("{bad:?}{c}"));
        Ok(())
    });
}
/// What can not be read is refused, not lost; never a crash
pub fn refuse_check(ck: &Ck) {
    let kept = |t: &str, o: &mut Obs| -> R {
        o.steps(1);
        for names in [true, false] {
            let Some((_, out)) = sorted(t, names)? else { o.state("refused"); return Ok(()) };
            let want = read(t);
            let got = read(&out).map_err(|e| format!("{t:?} became {out:?}, which is no stringtable: {e}"))?;
            let mut want = want.map_err(|e| format!("{t:?} is accepted as {got:?}, but {e}"))?;
            order(&mut want, names);
            ensure!(got == want, "{t:?} became {out:?}\n {got:?}\n expected\n {want:?}");
        }
        o.state("kept");
        Ok(())
    };
    ck.explore("unknown", "an element, language or attribute that is not part of the format, at each place: kept or refused", ["<Project name=\"p\" x=\"1\"><Package name=\"q\"/></Project>", "<Project name=\"p\"><Package name=\"q\" x=\"1\"/></Project>", "<Project name=\"p\"><Package name=\"q\"><Key ID=\"k\" x=\"1\"/></Package></Project>", "<Project name=\"p\"><Package name=\"q\"><Key ID=\"k\"><Klingon>t</Klingon></Key></Package></Project>", "<Project name=\"p\"><Package name=\"q\"><Key ID=\"k\"><enGlish>t</enGlish></Key></Package></Project>", "<Project name=\"p\"><Package name=\"q\"><Text>t</Text></Package></Project>", "<Project name=\"p\"><Package name=\"q\"/><Text>t</Text></Project>", "<Project name=\"p\"><Package name=\"q\"><Key ID=\"k\">text</Key></Package></Project>"].into_iter(), |t, o| {
        o.steps(1);
        let Some((_, out)) = sorted(t, true)? else { return Ok(()) };
        for part in ["x=\"1\"", "Klingon", "enGlish", "Text", "text"] { ensure!(!t.contains(part) || out.contains(part), "{t:?} became {out:?}"); }
        Ok(())
    });
    let whole = "\u{feff}<?xml version=\"1.0\"?>\n<!-- c --><Project name=\"p\">\n<Package name=\"b&amp;\"><!-- d\n-->\n<Key ID='k'>\n<German>g&lt;<![CDATA[x]]></German>\n<English/></Key> <!-- e -->\n<Container name=\"c\"></Container></Package></Project>\n<!-- f -->";
    let at: Vec<usize> = whole.char_indices().map(|x| x.0).chain([whole.len()]).collect();
    ck.explore("cut", "a stringtable with every construct cut off at every place, and from every place", at.iter().copied().flat_map(|i| [(0, i), (i, whole.len())]), |(a, b), o| kept(&whole[*a..*b], o));
    let pieces = ["", "<", ">", "/", "\"", "'", "&", ";", "]]>", "-->", "<!--", "--", "<![CDATA[", "</Key>", "<Key ID=\"n\">", "\n", " ", "</German>", "x", "=", "<?", "?>", "é"];
    ck.explore("edits", "the same with every character removed or replaced by every significant piece, or the piece put before it", product(&at[..at.len() - 1].to_vec(), &pieces), |(i, p), o| {
        let n = i + whole[*i..].chars().next().unwrap().len_utf8();
        for to in [n, *i] { let t = format!("{}{p}{}", &whole[..*i], &whole[to..]); no_panic(|| sorted(&t, true))??; let r = read(&t); if r.is_ok() { kept(&t, o)?; } else { o.steps(1); } }
        Ok(())
    });
    let toks = ["<Project name=\"p\">", "<Package name=\"q\">", "<Key ID=\"k\">", "<English>", "t", "</English>", "</Key>", "</Package>", "</Project>", "<Container name=\"c\">", "</Container>", "<!-- c -->", "\n"];
    ck.explore("tokens", "every sequence of tokens up to the bound, alone, in a project and in a package: kept or refused", seqs(&toks, 0, ck.t(5, 6)), |v, o| { let t = v.concat(); for (a, b) in [("", ""), ("<Project name=\"p\">", "</Project>"), ("<Project name=\"p\"><Package name=\"q\">", "</Package></Project>"), ("<Project name=\"p\"><Package name=\"q\"><Key ID=\"k\">", "</Key></Package></Project>")] { let t = format!("{a}{t}{b}"); no_panic(|| sorted(&t, true))??; if read(&t).is_ok() { kept(&t, o)?; } else { o.steps(1); } } Ok(()) });
}
