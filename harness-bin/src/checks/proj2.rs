//! Failing projects, histories of commands, and the file functions of hooks and scripts.

use std::collections::{BTreeMap, BTreeSet};
use std::hash::{DefaultHasher, Hash, Hasher};

use super::proj::{self, diff, Addon, Cmd, Conf, Files, Loc, Node, Proj, CMDS};
use crate::fw::{clip, Ck, R};
use crate::{ensure, ensure_eq};

fn h<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- X07: files in hooks and scripts

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Create(usize),
    Append2(usize),
    RemoveFile(usize),
    RemoveDir(usize),
    RemoveDirAll(usize),
    CreateDir(usize),
    CreateDirAll(usize),
    Copy(usize, usize),
    Move(usize, usize),
}
const PATHS: &[&str] = &["d", "d/f", "d/s", "k", "x", "x/y"];
fn parent(p: &str) -> &str {
    p.rsplit_once('/').map_or("", |x| x.0)
}
/// Files (with content) and folders below the working folder of a sequence.
type Fs = BTreeMap<String, Option<String>>;
fn start() -> Fs {
    let mut m = Fs::new();
    m.insert(String::new(), None);
    m.insert("d".into(), None);
    m.insert("d/f".into(), Some("F".into()));
    m.insert("d/s".into(), None);
    m.insert("d/s/g".into(), Some("G".into()));
    m.insert("k".into(), Some("K".into()));
    m
}
fn is_dir(m: &Fs, p: &str) -> bool {
    matches!(m.get(p), Some(None))
}
fn is_file(m: &Fs, p: &str) -> bool {
    matches!(m.get(p), Some(Some(_)))
}
fn below<'a>(m: &'a Fs, p: &'a str) -> impl Iterator<Item = (&'a String, &'a Option<String>)> {
    m.iter().filter(move |(n, _)| n.starts_with(p) && n[p.len()..].starts_with('/'))
}
/// Effect of one operation: None when the documentation leaves it open. `text` is what a creation writes.
fn apply(m: &Fs, op: Op, text: &str, real: bool) -> Option<(Option<bool>, Fs)> {
    let mut n = m.clone();
    let ok = |n: Fs| Some((Some(true), n));
    let no = || Some((Some(false), m.clone()));
    match op {
        Op::Create(p) | Op::Append2(p) => {
            let p = PATHS[p];
            if is_dir(m, p) {
                return None;
            }
            if !is_dir(m, parent(p)) {
                return no();
            }
            n.insert(p.into(), Some(if matches!(op, Op::Append2(_)) { format!("{text}{text}") } else { text.into() }));
            ok(n)
        }
        Op::RemoveFile(p) => {
            let p = PATHS[p];
            if is_dir(m, p) {
                return None;
            }
            if n.remove(p).flatten().is_none() {
                return no();
            }
            ok(n)
        }
        Op::RemoveDir(p) => {
            let p = PATHS[p];
            if is_file(m, p) {
                return None;
            }
            if below(m, p).next().is_some() && !real {
                return None;
            }
            if !is_dir(m, p) || below(m, p).next().is_some() {
                return no();
            }
            n.remove(p);
            ok(n)
        }
        Op::RemoveDirAll(p) => {
            let p = PATHS[p];
            if is_file(m, p) {
                return None;
            }
            if !is_dir(m, p) {
                return Some((None, m.clone()));
            }
            for (k, _) in below(m, p) {
                n.remove(k);
            }
            n.remove(p);
            ok(n)
        }
        Op::CreateDir(p) => {
            let p = PATHS[p];
            if n.contains_key(p) || !is_dir(m, parent(p)) {
                return no();
            }
            n.insert(p.into(), None);
            ok(n)
        }
        Op::CreateDirAll(p) => {
            let p = PATHS[p];
            if is_file(m, p) || is_file(m, parent(p)) {
                return None;
            }
            n.insert(parent(p).into(), None);
            n.insert(p.into(), None);
            ok(n)
        }
        Op::Copy(a, b) | Op::Move(a, b) => {
            let (p, q) = (PATHS[a], PATHS[b]);
            let mv = matches!(op, Op::Move(..));
            if p == q || q.starts_with(&format!("{p}/")) || p.starts_with(&format!("{q}/")) {
                return None;
            }
            if is_file(m, parent(q)) || is_dir(m, q) {
                return None;
            }
            if !m.contains_key(p) {
                return no();
            }
            if is_file(m, p) {
                if !is_dir(m, parent(q)) {
                    return no();
                }
                if is_file(m, q) && !real {
                    return no();
                }
                n.insert(q.into(), m[p].clone());
            } else {
                if is_file(m, q) {
                    return None;
                }
                if !is_dir(m, parent(q)) {
                    return None;
                }
                n.insert(q.into(), None);
                for (k, v) in below(m, p) {
                    n.insert(format!("{q}{}", &k[p.len()..]), v.clone());
                }
            }
            if mv {
                for (k, _) in below(m, p) {
                    n.remove(k);
                }
                n.remove(p);
            }
            ok(n)
        }
    }
}
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for p in 0..PATHS.len() {
        v.extend([Op::Create(p), Op::RemoveFile(p), Op::RemoveDir(p), Op::RemoveDirAll(p), Op::CreateDir(p)]);
        if p == 0 || p == 5 {
            v.extend([Op::CreateDirAll(p), Op::Append2(p)]);
        }
        for q in 0..PATHS.len() {
            v.extend([Op::Copy(p, q), Op::Move(p, q)]);
        }
    }
    v.push(Op::Append2(1));
    v
}
fn rhai(op: Op, text: &str) -> String {
    let p = |i: usize| format!("b.join(\"{}\")", PATHS[i]);
    let (s, returns) = match op {
        Op::Create(i) => (format!("{}.create_file().write(\"{text}\")", p(i)), false),
        Op::Append2(i) => (format!("let f = {}.create_file(); f.write(\"{text}\"); f.write(\"{text}\")", p(i)), false),
        Op::RemoveFile(i) => (format!("{}.remove_file()", p(i)), false),
        Op::RemoveDir(i) => (format!("{}.remove_dir()", p(i)), true),
        Op::RemoveDirAll(i) => (format!("{}.remove_dir_all()", p(i)), true),
        Op::CreateDir(i) => (format!("{}.create_dir()", p(i)), true),
        Op::CreateDirAll(i) => (format!("{}.create_dir_all()", p(i)), true),
        Op::Copy(i, j) => (format!("{}.copy({})", p(i), p(j)), true),
        Op::Move(i, j) => (format!("{}.move({})", p(i), p(j)), true),
    };
    if returns {
        format!("try {{ print(\"@\" + {s}); }} catch {{ print(\"@false\"); }}\n")
    } else {
        format!("try {{ {s}; print(\"@true\"); }} catch {{ print(\"@false\"); }}\n")
    }
}
struct Sequence {
    ops: Vec<Op>,
    answers: Vec<Option<bool>>,
    end: Fs,
}
fn sequences(depth: usize, real: bool) -> Vec<Sequence> {
    let all = ops();
    let mut level = vec![Sequence { ops: vec![], answers: vec![], end: start() }];
    let mut out = vec![];
    for d in 0..depth {
        let mut next = vec![];
        for s in &level {
            for op in &all {
                if let Some((a, end)) = apply(&s.end, *op, &d.to_string(), real) {
                    // a folder in place of a file of the disk is its own part below
                    if !real && start().iter().any(|(n, c)| c.is_some() && is_dir(&end, n)) {
                        continue;
                    }
                    // an operation that changes nothing needs no continuation: the shorter sequence has it
                    let stay = end == s.end;
                    let q = Sequence { ops: [s.ops.clone(), vec![*op]].concat(), answers: [s.answers.clone(), vec![a]].concat(), end };
                    if stay {
                        out.push(q);
                    } else {
                        next.push(q);
                    }
                }
            }
        }
        out.append(&mut level);
        level = next;
    }
    out.append(&mut level);
    out
}
fn script(base: &str, seqs: &[Sequence]) -> String {
    let mut s = String::from(
        "fn dump(p, n) {\n  if p.is_dir() {\n    print(\"@\" + n + \"/\" + p.exists() + p.is_file());\n    for e in p.list() { dump(e, n + \"/\" + e.file_name()); }\n  } else if p.is_file() {\n    print(\"@\" + n + \"=\" + p.open_file().read() + p.exists());\n  } else {\n    print(\"@\" + n + \"!\" + p.exists());\n  }\n}\n",
    );
    for (i, q) in seqs.iter().enumerate() {
        s.push_str(&format!("{{ let b = {base}.join(\"w\").join(\"{i}\");\nprint(\"@#{i}\");\n"));
        for (d, op) in q.ops.iter().enumerate() {
            s.push_str(&rhai(*op, &d.to_string()));
        }
        s.push_str("dump(b, \"\");\n");
        s.push_str("for p in [");
        for p in PATHS {
            s.push_str(&format!("\"{p}\","));
        }
        s.push_str("] { let x = b.join(p); print(\"@?\" + p + \" \" + x.exists() + \" \" + x.is_dir() + \" \" + x.is_file() + \" \" + x.file_name() + \" \" + (x.parent().to_string() + \"/\" + x.file_name() == x.to_string())); }\n}\n");
    }
    s
}
fn tomls() -> Vec<(&'static str, &'static str)> {
    vec![(".hemtt/project.toml", "name = \"Project\"\nprefix = \"p\"\nauthor = \"a\"\n[version]\nmajor = 1\nminor = 2\npatch = 3\ngit_hash = 0\n")]
}
/// Runs a batch in one invocation and compares every sequence with the model.
fn batch(seqs: &[Sequence], real: bool) -> Result<u64, String> {
    let mut f = proj::files(&tomls());
    for i in 0..seqs.len() {
        for (n, c) in start() {
            if let Some(c) = c {
                f.insert(format!("w/{i}/{n}"), c.into_bytes());
            }
        }
    }
    let text = script(if real { "HEMTT_RFS" } else { "HEMTT_VFS" }, seqs);
    f.insert(if real { ".hemtt/scripts/s.rhai" } else { ".hemtt/hooks/pre_build/s.rhai" }.into(), text.into_bytes());
    let p = Proj::new(&f);
    let before = p.sources();
    let o = p.run(if real { &["script", "s"] } else { &["check"] });
    ensure_eq!(o.code, 0, "exit code; {}", o.text().chars().rev().take(700).collect::<Vec<_>>().into_iter().rev().collect::<String>());
    let t = o.text();
    let mut got: Vec<Vec<&str>> = vec![];
    for l in t.lines() {
        let Some((_, l)) = l.split_once("] @") else { continue };
        if l.starts_with('#') {
            got.push(vec![]);
        } else if let Some(g) = got.last_mut() {
            g.push(l);
        }
    }
    ensure_eq!(got.len(), seqs.len(), "sequences run");
    let mut hash = 0u64;
    for (i, (g, q)) in got.iter().zip(seqs).enumerate() {
        let n = q.ops.len();
        ensure!(g.len() > n, "{:?}: output {g:?}", q.ops);
        for (k, a) in q.answers.iter().enumerate() {
            if let Some(a) = a {
                ensure!(g[k] == a.to_string(), "{:?}: operation {} answers {}, expected {a}", q.ops, k + 1, g[k]);
            }
        }
        let mut seen: Vec<String> = g[n..].iter().filter(|l| !l.starts_with('?')).map(|s| s.to_string()).collect();
        seen.sort();
        let mut want: Vec<String> = q
            .end
            .iter()
            .map(|(n, c)| {
                let n = if n.is_empty() { String::new() } else { format!("/{n}") };
                c.as_ref().map_or(format!("{n}/truefalse"), |c| format!("{n}={c}true"))
            })
            .collect();
        want.sort();
        ensure_eq!(seen, want, "{:?}: what the script sees afterwards", q.ops);
        for (p, l) in PATHS.iter().zip(g[n..].iter().filter(|l| l.starts_with('?'))) {
            let w = format!("?{p} {} {} {} {} true", q.end.contains_key(*p), is_dir(&q.end, p), is_file(&q.end, p), p.rsplit('/').next().unwrap());
            ensure_eq!(*l, w, "{:?}: answers about {p}", q.ops);
        }
        if real {
            let have: Fs = p
                .sub(&format!("w/{i}"))
                .into_iter()
                .map(|(n, c)| (n, if let Node::File(b) = c { Some(String::from_utf8_lossy(&b).to_string()) } else { None }))
                .chain([(String::new(), None)])
                .collect();
            ensure_eq!(have, q.end, "{:?}: files on disk", q.ops);
        }
        hash ^= h(&q.end);
    }
    if !real {
        ensure!(p.sources() == before, "the virtual file system changed real files: {:?}", diff(&before, &p.sources()));
    }
    Ok(hash)
}

pub fn x07(ck: &Ck) {
    ck.hang_secs(600);
    ck.assume("operations whose outcome the book leaves open (creating a file over a folder, copying onto an existing folder, a folder into itself) are not part of the sequences");
    for real in [false, true] {
        let depth = ck.t(2, 3);
        let mut all = sequences(depth, real);
        let n = ck.t(100, 400);
        let mut batches = vec![];
        while !all.is_empty() {
            let k = all.len().min(n);
            batches.push(all.drain(..k).collect::<Vec<_>>());
        }
        let replace = [
            (Replace::FolderForFile, vec![Op::RemoveFile(3), Op::CreateDir(3)]),
            (Replace::FileForFolder, vec![Op::RemoveDirAll(0), Op::Create(0)]),
            (Replace::FolderForFolder, vec![Op::RemoveDirAll(0), Op::CreateDir(0)]),
        ];
        ck.explore(if real { "replace-real" } else { "replace-virtual" }, "a file or folder of the project removed and the other kind created in its place", replace.iter().map(|r| r.0), |r, o| {
            o.steps(2);
            let ops = replace.iter().find(|x| x.0 == *r).unwrap().1.clone();
            let mut end = start();
            for (d, op) in ops.iter().enumerate() {
                end = apply(&end, *op, &d.to_string(), real).ok_or("open")?.1;
            }
            let answers = vec![Some(true); ops.len()];
            o.state(batch(&[Sequence { ops, answers, end }], real)?);
            Ok(())
        });
        let name = if real { "real" } else { "virtual" };
        ck.explore(
            name,
            "every sequence of file operations of a script up to the depth: answers, resulting files and (virtual) untouched sources",
            batches.into_iter().enumerate().map(|(i, b)| Batch(i, b)),
            |b, o| {
                o.steps(b.1.iter().map(|s| s.ops.len() as u64).sum());
                match batch(&b.1, real) {
                    Ok(x) => {
                        o.state(x);
                        Ok(())
                    }
                    Err(e) => Err(e),
                }
            },
        );
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Replace {
    FolderForFile,
    FileForFolder,
    FolderForFolder,
}
struct Batch(usize, Vec<Sequence>);
impl std::fmt::Debug for Batch {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "batch {} of {} sequences", self.0, self.1.len())
    }
}

// ---------------------------------------------------------------- X05: projects with a defect

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Stage {
    /// refused before anything is produced
    Start,
    /// found while checking or compiling: nothing is packed
    Compile,
    /// found while packing or copying
    Pack,
    /// found while releasing, before the archives are made
    Release,
    /// found after the archives were made
    Last,
}
type When = fn(Cmd) -> bool;
pub struct Defect {
    pub name: &'static str,
    stage: Stage,
    /// every one of them has to be said
    says: &'static [&'static str],
    when: When,
    pub edit: fn(&mut Files),
}
fn always(_: Cmd) -> bool {
    true
}
fn rap(c: Cmd) -> bool {
    !matches!(c, Cmd::BuildNoRap | Cmd::DevNoRap)
}
fn optional(c: Cmd) -> bool {
    !matches!(c, Cmd::BuildJustA | Cmd::DevJustA | Cmd::Dev | Cmd::DevNoRap)
}
fn optional_rap(c: Cmd) -> bool {
    optional(c) && rap(c)
}
fn packs(c: Cmd) -> bool {
    c != Cmd::Check
}
fn releases(c: Cmd) -> bool {
    matches!(c, Cmd::Release | Cmd::ReleaseNoSign | Cmd::ReleaseNoArchive)
}
fn signs(c: Cmd) -> bool {
    matches!(c, Cmd::Release | Cmd::ReleaseNoArchive)
}
fn set(f: &mut Files, n: &str, c: &str) {
    f.insert(n.into(), c.as_bytes().to_vec());
}
fn toml(f: &mut Files, from: &str, to: &str) {
    let s = String::from_utf8(f[".hemtt/project.toml"].clone()).unwrap();
    assert!(s.contains(from), "{from}");
    set(f, ".hemtt/project.toml", &s.replacen(from, to, 1));
}
fn add(f: &mut Files, n: &str, c: &str) {
    let mut s = f.get(n).cloned().unwrap_or_default();
    s.extend_from_slice(c.as_bytes());
    f.insert(n.into(), s);
}
const A: &str = "addons/a/";
macro_rules! defect {
    ($name:literal, $stage:ident, $when:ident, [$($s:literal),*], $edit:expr) => {
        Defect { name: $name, stage: Stage::$stage, says: &[$($s),*], when: $when, edit: $edit }
    };
}
pub fn defects() -> Vec<Defect> {
    vec![
        defect!("no project.toml", Start, always, ["project.toml"], |f| { f.remove(".hemtt/project.toml"); }),
        defect!("project.toml syntax", Start, always, ["TOML"], |f| add(f, ".hemtt/project.toml", "\n= 1\n")),
        defect!("no name", Start, always, ["name"], |f| toml(f, "name = \"Project\"\n", "")),
        defect!("no prefix", Start, always, ["prefix"], |f| toml(f, "prefix = \"p\"\n", "")),
        defect!("no version", Start, always, ["version"], |f| toml(f, "[version]\nmajor = 1\nminor = 2\npatch = 3\ngit_hash = 0\n", "[version]\ngit_hash = 0\n")),
        defect!("no git repository", Start, always, ["git"], |f| toml(f, "git_hash = 0\n", "")),
        defect!("two version sources", Start, always, ["ersion"], |f| toml(f, "[version]\n", "[version]\npath = \"addons/a/script_version.hpp\"\n")),
        defect!("addon.toml syntax", Start, always, ["TOML"], |f| set(f, &format!("{A}addon.toml"), "= 1\n")),
        defect!("no prefix file", Start, always, ["prefix not found: a"], |f| { f.remove(&format!("{A}$PBOPREFIX$")); f.remove(&format!("{A}$PREFIX$")); }),
        defect!("addon names differ by case", Start, always, ["different case"], |f| { set(f, "addons/A/x.txt", "x"); set(f, "addons/A/$PBOPREFIX$", "z\\p\\addons\\A3"); }),
        defect!("addon also optional", Start, always, ["addons and optionals: "], |f| { set(f, "optionals/a/x.txt", "x"); set(f, "optionals/a/$PBOPREFIX$", "z\\p\\addons\\A2"); }),
        defect!("two addons with one prefix", Start, always, ["z\\p\\addons\\a"], |f| { set(f, "addons/c/x.txt", "x"); set(f, "addons/c/$PBOPREFIX$", "z\\p\\addons\\a"); }),
        defect!("bad glob in rapify.exclude", Compile, rap, ["attern"], |f| set(f, &format!("{A}addon.toml"), "[rapify]\nexclude = [\"a***\"]\n")),
        defect!("bad glob in files.exclude", Pack, packs, ["attern"], |f| toml(f, "[version]", "[files]\nexclude = [\"a***\"]\n[version]")),
        defect!("bad glob in an addon's files.exclude", Pack, packs, ["attern"], |f| set(f, &format!("{A}addon.toml"), "[files]\nexclude = [\"a***\"]\n")),
        defect!("bad glob in files.include", Pack, packs, ["attern"], |f| toml(f, "[version]", "[files]\ninclude = [\"a***\"]\n[version]")),
        defect!("BOM in a script", Compile, always, ["addons/a/bom.sqf", "BOM"], |f| set(f, &format!("{A}bom.sqf"), "\u{feff}x = 1;")),
        defect!("BOM in a config", Compile, always, ["addons/a/config.cpp", "BOM"], |f| { let c = f[&format!("{A}config.cpp")].clone(); f.insert(format!("{A}config.cpp"), ["\u{feff}".as_bytes(), &c].concat()); }),
        defect!("config without closing brace", Compile, rap, ["addons/a/config.cpp"], |f| add(f, &format!("{A}config.cpp"), "class X {")),
        defect!("config without semicolon", Compile, rap, ["addons/a/config.cpp", "emicolon"], |f| add(f, &format!("{A}config.cpp"), "class X { a = 1 };\n")),
        defect!("config with a missing include", Compile, rap, ["addons/a/config.cpp", "nothere.hpp"], |f| add(f, &format!("{A}config.cpp"), "#include \"nothere.hpp\"\n")),
        defect!("config with an unknown directive", Compile, rap, ["addons/a/config.cpp", "foobar"], |f| add(f, &format!("{A}config.cpp"), "#foobar\n")),
        defect!("config with an open #ifdef", Compile, rap, ["addons/a/config.cpp"], |f| add(f, &format!("{A}config.cpp"), "#ifdef X\n")),
        defect!("config with a property twice", Compile, rap, ["addons/a/config.cpp"], |f| add(f, &format!("{A}config.cpp"), "class X { a = 1; a = 2; };\n")),
        defect!("config with an error in an include", Compile, rap, ["addons/a/inc.hpp"], |f| { add(f, &format!("{A}config.cpp"), "#include \"inc.hpp\"\n"); set(f, &format!("{A}inc.hpp"), "class X { a = 1 };\n"); }),
        defect!("nested config with an error", Compile, rap, ["addons/a/sub/config.cpp"], |f| set(f, &format!("{A}sub/config.cpp"), "class X { a = 1 };\n")),
        defect!("rvmat with an error", Compile, rap, ["addons/a/x.rvmat"], |f| set(f, &format!("{A}x.rvmat"), "class X { a = 1 };\n")),
        defect!("description.ext with an error", Compile, rap, ["addons/a/m/description.ext"], |f| set(f, &format!("{A}m/description.ext"), "class X { a = 1 };\n")),
        defect!("config of an optional addon", Compile, optional_rap, ["optionals/b/config.cpp"], |f| add(f, "optionals/b/config.cpp", "class X { a = 1 };\n")),
        defect!("script with a syntax error", Compile, always, ["addons/a/bad.sqf"], |f| set(f, &format!("{A}bad.sqf"), "x = ;\n")),
        defect!("script with an open bracket", Compile, always, ["addons/a/bad.sqf"], |f| set(f, &format!("{A}bad.sqf"), "x = [1, 2;\n")),
        defect!("script with a character outside the language", Compile, always, ["addons/a/bad.sqf"], |f| set(f, &format!("{A}bad.sqf"), "x = 1 ` 2;\n")),
        defect!("script with an open string", Compile, always, ["addons/a/bad.sqf"], |f| set(f, &format!("{A}bad.sqf"), "x = \"abc;\n")),
        defect!("script with a missing include", Compile, always, ["addons/a/bad.sqf", "nothere.hpp"], |f| set(f, &format!("{A}bad.sqf"), "#include \"nothere.hpp\"\n")),
        defect!("script of an optional addon", Compile, optional, ["optionals/b/bad.sqf"], |f| set(f, "optionals/b/bad.sqf", "x = ;\n")),
        defect!("stringtable that is not XML", Compile, always, ["addons/a/stringtable.xml"], |f| set(f, &format!("{A}stringtable.xml"), "<Project")),
        defect!("stringtable of an optional addon", Compile, always, ["optionals/b/stringtable.xml"], |f| set(f, "optionals/b/stringtable.xml", "<Project></Package>")),
        defect!("hook with a syntax error", Compile, always, ["hook.rhai"], |f| set(f, ".hemtt/hooks/post_release/hook.rhai", "let x = ;")),
        defect!("pre_build hook signals failure", Compile, always, ["because of this", "pre_build/hook.rhai"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "fatal(\"because of this\");")),
        defect!("pre_build hook throws", Compile, always, ["because of this", "pre_build/hook.rhai"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "throw \"because of this\";")),
        defect!("hook that ends early", Compile, always, ["pre_build/hook.rhai:2:"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "let y = 2;\nlet x =")),
        defect!("hook with other letters before a syntax error", Compile, always, ["pre_build/hook.rhai:2:15"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "// öä\nlet y = \"öß\"; ) x();\n")),
        defect!("hook with other letters before a failure", Compile, always, ["because of this", "pre_build/hook.rhai:2:13"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "print(\"öä\");\nif \"ö\"!=\"\" {throw \"because of this\";}\n")),
        defect!("hook with CRLF fails", Compile, always, ["because of this", "pre_build/hook.rhai:4:1"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "let a = 1;\r\nlet b = 2;\r\nlet c = 3;\r\nthrow \"because of this\";\r\n")),
        defect!("hook without end", Compile, always, ["pre_build/hook.rhai"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "fn f() { f() }\nf();\n")),
        defect!("hook calls an unknown function", Compile, always, ["nofunction", "pre_build/hook.rhai:2:1"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "let x = 1;\nnofunction(x);\n")),
        defect!("first of two pre_build hooks fails", Compile, always, ["because of this"], |f| { set(f, ".hemtt/hooks/pre_build/1.rhai", "fatal(\"because of this\");"); set(f, ".hemtt/hooks/pre_build/2.rhai", "print(\"fine\");"); }),
        defect!("script called by a hook signals failure", Compile, always, ["because of this"], |f| { set(f, ".hemtt/hooks/pre_build/hook.rhai", "HEMTT.script(\"s\");"); set(f, ".hemtt/scripts/s.rhai", "fatal(\"because of this\");"); }),
        defect!("script called by a hook throws", Compile, always, ["because of this"], |f| { set(f, ".hemtt/hooks/pre_build/hook.rhai", "HEMTT.script(\"s\");"); set(f, ".hemtt/scripts/s.rhai", "throw \"because of this\";"); }),
        defect!("hook calls a script that does not exist", Compile, always, ["nothere"], |f| set(f, ".hemtt/hooks/pre_build/hook.rhai", "HEMTT.script(\"nothere\");")),
        defect!("post_build hook signals failure", Pack, packs, ["because of this"], |f| set(f, ".hemtt/hooks/post_build/hook.rhai", "fatal(\"because of this\");")),
        defect!("pre_release hook signals failure", Release, releases, ["because of this"], |f| set(f, ".hemtt/hooks/pre_release/hook.rhai", "fatal(\"because of this\");")),
        defect!("pre_release hook throws", Release, releases, ["because of this"], |f| set(f, ".hemtt/hooks/pre_release/hook.rhai", "throw \"because of this\";")),
        defect!("post_release hook signals failure", Last, releases, ["because of this"], |f| set(f, ".hemtt/hooks/post_release/hook.rhai", "fatal(\"because of this\");")),
        defect!("command newer than the required version", Compile, rap, ["addons/a/new.sqf", "2.02"], |f| set(f, &format!("{A}new.sqf"), "x = createHashMapFromArray [];\n")),
        defect!("newer command in other case and with operands", Compile, rap, ["addons/a/new.sqf", "2.02"], |f| set(f, &format!("{A}new.sqf"), "y = 1;\nif (y > 0) then { x = [CREATEHASHMAPFROMARRAY []]; };\n")),
        defect!("addon without files", Compile, signs, ["addons/d", "no files"], |f| { set(f, "addons/d/$PBOPREFIX$", "z\\p\\addons\\d"); }),
        defect!("lint that cannot be disabled", Compile, rap, ["cannot be disabled"], |f| set(f, ".hemtt/lints.toml", "[config]\ninvalid_value = false\n")),
        defect!("script that is not text", Compile, always, ["UTF-8"], |f| { f.insert(format!("{A}bin.sqf"), vec![b'x', 0xff, 0xfe, b'\n']); }),
        defect!("config that is not text", Compile, rap, ["UTF-8"], |f| { f.insert(format!("{A}config.cpp"), vec![b'/', b'/', 0xff, 0xfe, b'\n']); }),
        defect!("prefix file that is not text", Start, always, ["UTF-8"], |f| { f.insert(format!("{A}$PBOPREFIX$"), vec![b'x', 0xff, 0xfe, b'\n']); }),
    ]
}
fn base_project() -> Files {
    proj::project(&[Addon { loc: Loc::Addons, name: "a", shape: 1 }, Addon { loc: Loc::Optionals, name: "b", shape: 0 }], Conf(0))
}
fn produced(p: &Proj, cmd: Cmd) -> Vec<String> {
    p.sub(&format!(".hemttout/{}", cmd.mode())).keys().filter(|k| k.ends_with(".pbo") || k.ends_with(".bisign")).cloned().collect()
}
fn failing(ds: &[&Defect], cmd: Cmd, threads: u32) -> Result<u64, String> {
    let mut f = base_project();
    for d in ds {
        (d.edit)(&mut f);
    }
    let p = Proj::new(&f);
    let before = p.sources();
    // a release of an earlier version
    let old = proj::files(&[("releases/p-1.0.0.zip", "old"), ("releases/p-latest.zip", "old")]);
    p.put(&old);
    let args = cmd.args();
    let o = p.run_env(&args, &[], threads);
    let text = o.text();
    let tail = || text.lines().filter(|l| !l.contains("TRACE")).collect::<Vec<_>>().join("\n").chars().rev().take(900).collect::<Vec<_>>().into_iter().rev().collect::<String>();
    let seen: Vec<&&Defect> = ds.iter().filter(|d| (d.when)(cmd)).collect();
    ensure!(o.code < 2, "exit code {}: {}", o.code, tail());
    ensure_eq!(o.code == 1, !seen.is_empty(), "failed; output: {}", tail());
    // trace lines are not what a user sees
    let shown: String = text.lines().filter(|l| !l.contains("TRACE") && !l.contains("DEBUG")).map(|l| format!("{l}\n")).collect();
    let shown = strip(&shown);
    if let Some(first) = seen.iter().map(|d| d.stage).min_by_key(|s| *s as u8) {
        let said = |d: &Defect| d.says.iter().all(|s| shown.contains(s));
        ensure!(seen.iter().any(|d| said(d)), "the output does not say {:?}: {}", seen.iter().map(|d| d.says).collect::<Vec<_>>(), tail());
        if matches!(first, Stage::Start | Stage::Compile) {
            ensure!(produced(&p, cmd).is_empty(), "failed, but left {:?}", produced(&p, cmd));
        }
        if first != Stage::Last || cmd == Cmd::ReleaseNoArchive {
            ensure_eq!(p.sub("releases"), old.iter().map(|(k, v)| (k["releases/".len()..].to_string(), Node::File(v.clone()))).collect::<BTreeMap<_, _>>(), "releases after a failure");
        }
    }
    ensure!(p.sources() == before, "{args:?} changed the sources: {:?}", diff(&before, &p.sources()));
    Ok(h((seen.len(), o.code, ds.iter().map(|d| d.name).collect::<Vec<_>>(), cmd)))
}
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub fn x05(ck: &Ck) {
    ck.hang_secs(300);
    let ds = defects();
    let name = |n: &str| ds.iter().find(|d| d.name == n).unwrap();
    let mut cases = vec![];
    for d in &ds {
        for c in CMDS {
            cases.push((d.name, *c));
        }
    }
    ck.explore("one-defect", "every defect x every command: the command fails exactly if it looks at the defective part, says what is wrong, and leaves no archives, signatures or releases", cases, |(d, c), o| {
        o.steps(1);
        o.state(failing(&[name(d)], *c, 1)?);
        Ok(())
    });
    let mut cases = vec![];
    for (i, d) in ds.iter().enumerate() {
        for e in &ds[i + 1..] {
            for c in ck.t(&[Cmd::Build][..], &[Cmd::Check, Cmd::Build, Cmd::Release, Cmd::Dev][..]) {
                // both edit the same place
                let conflict = |x: &str, y: &str| (d.name.contains(x) && e.name.contains(y)) || (d.name.contains(y) && e.name.contains(x));
                if conflict("project.toml", "") && d.name != "project.toml syntax" && e.name != "project.toml syntax" {
                    continue;
                }
                if conflict("bad glob in files.exclude", "bad glob in files.include") || conflict("hook", "hook") && d.name.contains("pre_build") == e.name.contains("pre_build") {
                    continue;
                }
                cases.push((d.name, e.name, *c));
            }
        }
    }
    ck.explore("two-defects", "every pair of defects: fails if either is seen, and says at least one of them", cases, |(d, e, c), o| {
        o.steps(1);
        o.state(failing(&[name(d), name(e)], *c, 3)?);
        Ok(())
    });
}
