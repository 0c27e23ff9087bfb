//! The workspace: finding files, discovering addons, positions of diagnostics, running lints.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

use codespan_reporting::diagnostic::Severity;
use hemtt_common::config::{LintConfig, LintConfigOverride, PDriveOption, ProjectConfig};
use hemtt_workspace::addons::{Addon, Location};
use hemtt_workspace::lint::{AnyLintRunner, Lint, LintGroupRunner, LintManager, LintRunner};
use hemtt_workspace::reporting::{Code, Codes, Diagnostic, Label, Processed, WorkspaceFiles};
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};

use crate::fw::*;
use crate::{ensure, ensure_eq};

fn mem(files: &[(String, String)]) -> Result<vfs::VfsPath, String> {
    let m: vfs::VfsPath = vfs::MemoryFS::new().into();
    for (p, c) in files {
        let f = m.join(p).map_err(|e| e.to_string())?;
        f.parent().create_dir_all().map_err(|e| e.to_string())?;
        f.create_file().map_err(|e| e.to_string())?.write_all(c.as_bytes()).map_err(|e| e.to_string())?;
    }
    Ok(m)
}
fn open(m: vfs::VfsPath, discovery: bool) -> Result<WorkspacePath, hemtt_workspace::Error> {
    Workspace::create(m.clone(), vec![(m, LayerType::Source)], None, discovery, &PDriveOption::Disallow)
}

// ------------------------------------------------------------------ F01 locate
/// Joins like a file system does
fn join(dir: &str, p: &str) -> Option<String> {
    let mut v: Vec<&str> = if p.starts_with('/') { vec![] } else { dir.split('/').filter(|x| !x.is_empty()).collect() };
    for c in p.split('/') { match c { "" | "." => {} ".." => { v.pop(); } /* stays within the project */ c => v.push(c) } }
    Some(v.join("/"))
}
struct Tree { files: BTreeSet<String>, dirs: BTreeSet<String>, pointers: Vec<(String, String)> }
impl Tree {
    fn new(files: &[(String, String)]) -> Self {
        let mut t = Tree { files: BTreeSet::new(), dirs: BTreeSet::new(), pointers: vec![] };
        for (p, c) in files {
            let (d, n) = p.rsplit_once('/').unwrap_or(("", p));
            let mut x = d;
            loop { t.dirs.insert(x.to_string()); match x.rsplit_once('/') { Some((a, _)) => x = a, None => break } }
            t.dirs.insert(String::new());
            if n.eq_ignore_ascii_case("$PBOPREFIX$") { t.pointers.push((format!("/{}", c.trim().to_lowercase().replace('\\', "/")), d.to_string())); }
            t.files.insert(p.clone());
        }
        // innermost first
        t.pointers.sort_by_key(|(p, _)| std::cmp::Reverse(p.len()));
        t
    }
    fn exists(&self, p: &str) -> bool { self.files.contains(p) || self.dirs.contains(p) }
    fn locate(&self, from: &str, r: &str) -> Result<Option<String>, ()> {
        let p = r.replace('\\', "/");
        if p.starts_with('/') {
            let a = join("", &p).ok_or(())?;
            if self.exists(&a) { return Ok(Some(a)); }
            for (pre, dir) in &self.pointers {
                if p.to_lowercase().starts_with(&format!("{pre}/")) {
                    let rest = &p[pre.len() + 1..];
                    let full = join(dir, rest).ok_or(())?;
                    if self.exists(&full) { return Ok(Some(full)); }
                }
            }
            return Ok(None);
        }
        let dir = from.rsplit_once('/').map_or("", |x| x.0);
        let full = join(dir, &p).ok_or(())?;
        Ok(self.exists(&full).then_some(full))
    }
    fn virt(&self, p: &str) -> String {
        let full = format!("/{p}");
        let mut best: Option<&(String, String)> = None;
        for x in &self.pointers { if full.starts_with(&format!("/{}/", x.1)) && best.is_none_or(|b| b.1.len() < x.1.len()) { best = Some(x); } }
        best.map_or(full.clone(), |(pre, dir)| format!("{pre}{}", &full[dir.len() + 1..]))
    }
}
pub fn locate_check(ck: &Ck) {
    ck.assume("no P drive; references do not end in a slash; ASCII names");
    let mut optional = vec!["addons/main/a.hpp", "addons/main/sub/a.hpp", "addons/main/sub/b.hpp", "addons/main/sub/deep/a.hpp", "addons/other/a.hpp", "include/x/ext/a.hpp", "a.hpp", "x/proj/a.hpp"];
    if !ck.quick() { optional.extend(["addons/main/b.hpp", "addons/a.hpp", "addons/other/sub/a.hpp", "x/a.hpp"]); }
    let prefixes: Vec<Vec<(&str, &str)>> = product(&product(&["x\\proj", "x", ""], &["x\\proj\\sub", "x\\proj\\sub\\deep", "z\\in", ""]), &product(&["x\\other", "x\\proj\\other", "X\\Proj\\main"], &["x\\ext", ""]))
        .into_iter().map(|((a, b), (c, d))| vec![("addons/main", a), ("addons/main/sub", b), ("addons/other", c), ("include/x/ext", d)]).collect();
    let refs = ["\\x\\proj\\a.hpp", "\\x\\proj\\sub\\a.hpp", "\\x\\proj\\sub\\b.hpp", "\\x\\proj\\sub\\deep\\a.hpp", "\\X\\PROJ\\Sub\\a.hpp", "\\x\\other\\a.hpp", "\\x\\proj\\other\\a.hpp", "\\x\\ext\\a.hpp", "\\x\\a.hpp", "\\x\\sub\\a.hpp", "\\z\\in\\b.hpp", "\\z\\in\\..\\a.hpp",
        "/addons/main/a.hpp", "\\addons\\main\\sub\\..\\a.hpp", "a.hpp", "sub\\a.hpp", "..\\a.hpp", "../../a.hpp", ".\\sub\\deep/a.hpp", "..\\..\\..\\..\\a.hpp", "\\none\\a.hpp", "\\x\\projx\\a.hpp", "b.hpp", "\\x\\proj\\main\\a.hpp", "sub"];
    let bases = ["addons/main/config.cpp", "addons/main/sub/script.sqf", "config.cpp"];
    let n = optional.len();
    let sets: Vec<Vec<&str>> = subsets(&optional, 0, n);
    ck.explore("references", "every set of project files x every layout of prefixes (separate, nested, in wrong case, absent) x 25 references (virtual, absolute, relative, upwards, wrong case, missing) from 3 places", product(&(0..sets.len()).collect::<Vec<_>>(), &(0..prefixes.len()).collect::<Vec<_>>()), |&(s, p), o| {
        let mut files: Vec<(String, String)> = sets[s].iter().map(|f| ((*f).to_string(), String::new())).collect();
        for b in bases { files.push((b.to_string(), String::new())); }
        for (d, x) in &prefixes[p] { if !x.is_empty() { files.push((format!("{d}/$PBOPREFIX$"), (*x).to_string())); } }
        let t = Tree::new(&files);
        let ws = match open(mem(&files)?, true) { Ok(w) => w, Err(e) => { return Err(format!("{files:?}: {e}")); } };
        for b in bases {
            let from = ws.join(b).map_err(|e| e.to_string())?;
            for r in refs {
                let want = t.locate(b, r);
                let got = from.locate(r);
                o.steps(1);
                match (&got, &want) {
                    (Err(_), Err(())) => {}
                    (Ok(None), Ok(None)) => o.state((b, r)),
                    (Ok(Some(l)), Ok(Some(w))) => {
                        o.state((b, r, w));
                        ensure_eq!(l.path.as_str(), format!("/{w}"), "{r:?} from {b:?} in {:?}", t.files);
                        ensure!(l.case_mismatch.is_none(), "{r:?} from {b:?} is reported to have the wrong case");
                    }
                    (g, w) => return Err(format!("{r:?} from {b:?} in {:?} gives {:?}, expected {w:?}", t.files, g.as_ref().map(|x| x.as_ref().map(|x| x.path.as_str().to_string())).map_err(|e| e.to_string()))),
                }
            }
        }
        for f in &t.files {
            let w = ws.join(f).map_err(|e| e.to_string())?;
            ensure_eq!(w.as_virtual_str(), t.virt(f), "virtual path of {f:?} in {:?}", t.files);
            o.steps(1);
        }
        Ok(())
    });
    // names that differ in case only matter on disk: the lookup works on the working directory
    let disk = ["addons/Main/Sub/File.HPP", "include/X/Ext/f.hpp", "addons/Main/$PBOPREFIX$", "Root.hpp"];
    let dir = scratch().join("case");
    for f in disk { let p = dir.join(f); std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, "x\\m").unwrap(); }
    let old = std::env::current_dir().unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let ws = Workspace::builder().physical(&dir, LayerType::Source).finish(None, true, &PDriveOption::Disallow).expect("workspace");
    let spell = |s: &str| -> Vec<String> { vec![s.to_string(), s.to_lowercase(), s.to_uppercase(), s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()] };
    let mut cases: Vec<(String, &str, bool)> = vec![];
    for s in spell("\\x\\m\\Sub\\File.HPP") { cases.push((s, "addons/Main/Sub/File.HPP", true)); }
    for s in spell("\\addons\\Main\\Sub\\File.HPP") { cases.push((s, "addons/Main/Sub/File.HPP", false)); }
    for s in spell("\\X\\Ext\\f.hpp") { cases.push((s, "include/X/Ext/f.hpp", false)); }
    for s in spell("\\Root.hpp") { cases.push((s, "Root.hpp", false)); }
    for s in spell("\\addons\\Main\\none.hpp") { cases.push((s, "", false)); }
    for s in spell("\\x\\m\\none.hpp") { cases.push((s, "", true)); }
    ck.explore("case", "references spelled in four cases on a case-sensitive disk: found, and the mismatch is reported with the name on disk", cases, |(r, w, virt), o| {
        let got = ws.join("addons/Main/config.cpp").unwrap().locate(r).map_err(|e| e.to_string())?;
        o.steps(1); o.state(r);
        if w.is_empty() { ensure!(got.is_none(), "{r:?} is found at {:?}", got.map(|g| g.path.as_str().to_string())); return Ok(()); }
        let g = got.ok_or_else(|| format!("{r:?} is not found"))?;
        ensure!(g.path.exists().unwrap_or(false), "{r:?} gives {:?}, which does not exist", g.path.as_str());
        ensure!(g.path.as_str().trim_start_matches("/.").trim_start_matches('/').eq(*w), "{r:?} gives {:?}, expected {w:?}", g.path.as_str());
        let tail = |s: &str, n: usize| s[s.len() - n..].replace('\\', "/");
        // the part behind the prefix has to be spelled as on disk
        let n = if *virt { "/Sub/File.HPP".len() } else { r.len().min(w.len() + 1) };
        let exact = tail(r, n) == tail(&format!("/{w}"), n) || (r.starts_with("\\X\\Ext") && tail(r, n - 1) == tail(w, n - 1));
        ensure_eq!(g.case_mismatch.is_none(), exact && !(r.starts_with("\\X\\Ext")), "case mismatch of {r:?}: {:?}", g.case_mismatch);
        if let Some(m) = g.case_mismatch { ensure!(m.ends_with(w), "{r:?} is reported as {m:?}, expected {w:?}"); }
        Ok(())
    });
    std::env::set_current_dir(old).unwrap();
    ck.explore("paths", "file name operations on every name of up to four parts", seqs(&["a", ".", "b.c", "é", "cpp"], 1, 4), |v, o| {
        let name = v.concat();
        if name == "." || name == ".." || name.ends_with('.') && name.trim_end_matches('.').is_empty() { return Ok(()); }
        let ws = open(mem(&[(format!("d/{name}"), "x\r\ny\r".into())])?, false).map_err(|e| e.to_string())?;
        let p = ws.join(format!("d/{name}")).map_err(|e| e.to_string())?;
        o.steps(6); o.state(&name);
        ensure_eq!(p.filename(), name, "file name");
        ensure_eq!(p.parent().as_str(), "/d", "parent of {name:?}");
        ensure_eq!(p.read_to_string().map_err(|e| e.to_string())?, "x\ny", "content of {name:?}");
        let stem = name.rsplit_once('.').map_or(name.as_str(), |x| x.0);
        ensure_eq!(p.with_extension("bin").map_err(|e| e.to_string())?.as_str(), format!("/d/{stem}.bin"), "with_extension of {name:?}");
        ensure!(p.exists().unwrap_or(false) && p.is_file().unwrap_or(false) && !p.is_dir().unwrap_or(true), "{name:?} is a file");
        Ok(())
    });
    // layers: what is added later hides what was added earlier, writes go to the last one
    let names = ["a", "b"];
    ck.explore("layers", "every distribution of two files over a source, an include and a build layer", product(&(0..16usize).collect::<Vec<_>>(), &[false, true]), |&(m, build), o| {
        let base = scratch().join(format!("layers-{m}-{build}"));
        let mut b = Workspace::builder();
        let kinds = [("src", LayerType::Source), ("inc", LayerType::Include)];
        for (k, (d, t)) in kinds.iter().enumerate() {
            let p = base.join(d);
            std::fs::create_dir_all(&p).unwrap();
            for (i, n) in names.iter().enumerate() { if m >> (k * 2 + i) & 1 == 1 { std::fs::write(p.join(n), format!("{d}{n}")).unwrap(); } }
            b = b.physical(&p, t.clone());
        }
        if build { b = b.memory(); }
        let ws = b.finish(None, false, &PDriveOption::Disallow).map_err(|e| e.to_string())?;
        for (i, n) in names.iter().enumerate() {
            let (s, inc) = (m >> i & 1 == 1, m >> (2 + i) & 1 == 1);
            let p = ws.join(n).map_err(|e| e.to_string())?;
            ensure_eq!(p.exists().unwrap_or(false), s || inc, "{n} exists");
            ensure_eq!(p.is_include(), inc, "{n} is from the include layer");
            if s || inc { ensure_eq!(p.read_to_string().map_err(|e| e.to_string())?, format!("{}{n}", if inc { "inc" } else { "src" }), "content of {n}"); }
            if build {
                p.create_file().map_err(|e| e.to_string())?.write_all(b"built").map_err(|e| e.to_string())?;
                ensure_eq!(p.read_to_string().map_err(|e| e.to_string())?, "built", "written {n}");
                ensure_eq!(base.join("src").join(n).exists(), s, "writing to the build layer touches the source");
            }
            o.steps(4); o.state((m, i, build));
        }
        let _ = std::fs::remove_dir_all(&base);
        Ok(())
    });
}

// ------------------------------------------------------------------ F02 discovery
pub fn discover_check(ck: &Ck) {
    ck.assume("names of directories are ASCII");
    // what the workspace finds by itself
    let pool = [("addons/a/config.cpp", ""), ("addons/a/CONFIG.CPP", ""), ("addons/a/$PBOPREFIX$", "x\\a"), ("addons/b/$prefix$", "x\\a"), ("optionals/o/pboprefix.txt", "prefix=x\\o\nversion=1"), ("include/i/$PBOPREFIX$.txt", "X\\O"), ("addons/a/sub/Config.cpp", ""), ("addons/m/mission.sqm", ""), ("other/config.cpp", ""), ("addons/.hemtt/config.cpp", ""), ("addons/c/$PBOPREFIX$", "\\bad"), ("addons/a/config.cpp.txt", "")];
    ck.explore("workspace", "every set of (quick: up to 7 of) 12 project files: exactly the configurations, missions and prefixes in addons, optionals and include are found, duplicate and invalid prefixes are refused", subsets(&pool, 0, ck.t(7, 12)), |s, o| {
        let files: Vec<(String, String)> = s.iter().map(|(a, b)| ((*a).to_string(), (*b).to_string())).collect();
        let r = open(mem(&files)?, true);
        o.steps(files.len() as u64);
        let has = |n: &str| s.iter().any(|x| x.0 == n);
        let dup = (has("addons/a/$PBOPREFIX$") && has("addons/b/$prefix$")) || (has("optionals/o/pboprefix.txt") && has("include/i/$PBOPREFIX$.txt"));
        let bad = has("addons/c/$PBOPREFIX$");
        match r {
            Err(e) => { ensure!(dup || bad, "{files:?} is refused: {e}"); o.state(e.to_string()); }
            Ok(w) => {
                ensure!(!dup && !bad, "{files:?} is accepted");
                let f = |v: &[vfs::VfsPath]| v.iter().map(|p| p.as_str().to_string()).collect::<Vec<_>>();
                let (mut a, mut m) = (f(w.addons()), f(w.missions()));
                a.sort(); m.sort();
                let mut wa: Vec<String> = ["addons/a/config.cpp", "addons/a/CONFIG.CPP", "addons/a/sub/Config.cpp"].iter().filter(|n| has(n)).map(|n| format!("/{n}")).collect();
                wa.sort();
                ensure_eq!(a, wa, "configurations of {files:?}");
                ensure_eq!(m, if has("addons/m/mission.sqm") { vec!["/addons/m/mission.sqm".to_string()] } else { vec![] }, "missions of {files:?}");
                for (n, v) in [("addons/a/$PBOPREFIX$", "\\x\\a\\$PBOPREFIX$"), ("addons/b/$prefix$", "\\x\\a\\$prefix$"), ("optionals/o/pboprefix.txt", "\\X\\o\\pboprefix.txt"), ("include/i/$PBOPREFIX$.txt", "\\x\\o\\$PBOPREFIX$.txt")] {
                    let g = w.locate(v).map_err(|e| e.to_string())?.map(|l| l.path.as_str().to_string());
                    ensure_eq!(g, has(n).then(|| format!("/{n}")), "{v} in {files:?}");
                }
                o.state((a, m));
            }
        }
        Ok(())
    });
    // what a build sees
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    enum P { None, Lower, Upper, Txt, Bad, Two, WithToml, BadToml }
    use P::*;
    let kinds = [None, Lower, Upper, Txt, Bad, Two, WithToml, BadToml];
    let names = ["main", "Main", "other", "CUP_x"];
    let mut cases: Vec<Vec<(usize, usize, P)>> = vec![vec![]];
    let single: Vec<(usize, usize, P)> = (0..2).flat_map(|l| (0..names.len()).flat_map(move |n| kinds.map(move |k| (l, n, k)))).collect();
    for &a in &single { cases.push(vec![a]); }
    for (i, &a) in single.iter().enumerate() { for &b in &single[i..] { if (a.0, a.1) != (b.0, b.1) { cases.push(vec![a, b]); } } }
    if !ck.quick() {
        let good: Vec<_> = single.iter().copied().filter(|x| matches!(x.2, None | Lower | Txt)).collect();
        for (i, &a) in good.iter().enumerate() { for (j, &b) in good.iter().enumerate().skip(i) { for &c in &good[j..] { if (a.0, a.1) != (b.0, b.1) && (b.0, b.1) != (c.0, c.1) && (a.0, a.1) != (c.0, c.1) { cases.push(vec![a, b, c]); } } } }
    }
    ck.explore("addons", "every one or two (thorough: three) addon directories over two locations, four names and eight kinds of content on a real disk, next to files and empty locations: exactly they are listed with their prefix and settings, or the first problem is reported", cases.into_iter().enumerate(), |(i, c), o| {
        let root = scratch().join(format!("scan-{i}"));
        std::fs::create_dir_all(root.join("addons")).unwrap();
        std::fs::write(root.join("addons/readme.txt"), "x").unwrap();
        let loc = |l: usize| ["addons", "optionals"][l];
        for (l, n, k) in c {
            let d = root.join(loc(*l)).join(names[*n]);
            std::fs::create_dir_all(&d).unwrap();
            let w = |f: &str, t: &str| std::fs::write(d.join(f), t).unwrap();
            let good = format!("z\\{}\\{}", loc(*l), names[*n]);
            match k {
                None => {}
                Lower => w("$pboprefix$", &good),
                Upper => w("$PBOPREFIX$", &good),
                Txt => w("pboprefix.txt", &format!("prefix={good}\n")),
                Bad => w("$pboprefix$", "\\bad"),
                Two => { w("$prefix$", "z\\second"); w("$pboprefix$", &good); }
                WithToml => { w("$prefix$", &good); w("addon.toml", "[binarize]\nenabled = false\n"); }
                BadToml => { w("$prefix$", &good); w("addon.toml", "[binarize"); }
            }
        }
        let r = Addon::scan(&root);
        let _ = std::fs::remove_dir_all(&root);
        o.steps(c.len() as u64);
        let mut want: BTreeSet<&str> = BTreeSet::new();
        for (_, _, k) in c { match k { None => { want.insert("prefix not found"); } Bad => { want.insert("refix"); } BadToml => { want.insert(""); } _ => {} } }
        // the names are only compared when every addon can be read
        if want.is_empty() {
            for (l, n, _) in c { for (m, q, _) in c { if names[*n].eq_ignore_ascii_case(names[*q]) { if n != q { want.insert("different case"); } else if l != m { want.insert("addons and optionals"); } } } }
        }
        match r {
            Err(e) => {
                let e = e.to_string();
                ensure!(want.iter().any(|w| e.contains(w)), "{c:?} is refused with {e:?}, expected {want:?}");
                o.state(e);
            }
            Ok(v) => {
                ensure!(want.is_empty(), "{c:?} is accepted, expected {want:?}");
                let mut g: Vec<(String, String, String, Option<bool>)> = v.iter().map(|a| (a.folder(), a.pbo_name("pre"), a.prefix().to_string(), a.config().map(|c| c.binarize().enabled()))).collect();
                g.sort();
                let mut w: Vec<_> = c.iter().map(|(l, n, k)| (format!("{}/{}", loc(*l), names[*n]), format!("pre_{}", names[*n]), format!("z\\{}\\{}", loc(*l), names[*n]), (*k == WithToml).then_some(false))).collect();
                w.sort();
                ensure_eq!(g, w, "addons of {c:?}");
                for a in &v {
                    ensure_eq!(a.folder_pathbuf().to_string_lossy(), a.folder(), "folder");
                    ensure_eq!(a.location().to_string().parse::<Location>().ok(), Some(*a.location()), "location");
                }
                o.state(g);
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ F03 positions
/// line and column of a byte offset, counting from one; the end of a file that ends with a line
/// break belongs to its last line
fn line_col(s: &str, at: usize) -> (usize, usize) {
    let end = if at == s.len() && s.ends_with('\n') { at - 1 } else { at };
    let start = s[..end].rfind('\n').map_or(0, |i| i + 1);
    (1 + s[..start].matches('\n').count(), 1 + s[start..at].chars().count())
}
pub fn position_check(ck: &Ck) {
    ck.assume("spans lie on character boundaries of the content without carriage returns");
    let a = ["a", "é", "\n", "\r\n", "\t", "🤔"];
    ck.explore("labels", "every content up to the bound x every span: the annotation and the rendered text name the right file, line and column", seqs(&a, 0, ck.t(6, 7)), |v, o| {
        let c = v.concat();
        let ws = open(mem(&[("dir/f.hpp".into(), c.clone())])?, false).map_err(|e| e.to_string())?;
        let p = ws.join("dir/f.hpp").map_err(|e| e.to_string())?;
        let s = c.replace('\r', "");
        ensure_eq!(p.read_to_string().map_err(|e| e.to_string())?, s, "content");
        let files = WorkspaceFiles::new();
        for b in 0..=s.len() {
            if !s.is_char_boundary(b) { continue; }
            for e in b..=s.len() {
                if !s.is_char_boundary(e) { continue; }
                let d = Diagnostic::new("T1", "title").with_label(Label::primary(p.clone(), b..e).with_message("here")).with_label(Label::secondary(p.clone(), 0..0).with_message("there"));
                let a = d.to_annotations(&files);
                ensure_eq!(a.len(), 1, "annotations");
                let (x, y) = (line_col(&s, b), line_col(&s, e));
                ensure_eq!((a[0].start_line, a[0].start_column, a[0].end_line, a[0].end_column), (x.0, x.1, y.0, y.1), "span {b}..{e} of {s:?}");
                ensure_eq!(a[0].line(), format!("{}||{}||{}||{}||error||title||here||/dir/f.hpp\n", x.0, y.0, x.1, y.1), "annotation");
                let t = d.to_string(&files);
                ensure!(t.contains("dir/f.hpp:") && t.contains("here"), "span {b}..{e} of {s:?} is shown as {t:?}");
                o.steps(1);
                if e > b || b < s.len() { let want = format!("dir/f.hpp:{}:{}", x.0, x.1); ensure!(t.contains(&want), "span {b}..{e} of {s:?} is shown as {t:?}, expected {want}"); }
            }
        }
        o.state(&s);
        Ok(())
    });
    // labels in the output of the preprocessor
    struct C(std::ops::Range<usize>);
    impl Code for C {
        fn ident(&self) -> &'static str { "TST" }
        fn message(&self) -> String { "message".into() }
        fn label_message(&self) -> String { "label".into() }
        fn severity(&self) -> Severity { Severity::Warning }
    }
    let l = ["word", "é ", "\n", "M", "F(🤔,b)", "// c\n", "#include \"i.hpp\"\n", "\"s\"", "/* c */"];
    ck.explore("processed", "every source of pieces (words, macros, comments, includes) up to the bound x every span of its output: the label starts at the token the span starts in and can be shown", seqs(&l, 0, ck.t(5, 6)), |v, o| {
        let mut src = String::from("#define M mm\n#define F(x,y) x y\n");
        for p in v { if p.starts_with('#') && !src.ends_with('\n') { src.push('\n'); } src += p; }
        let ws = open(mem(&[("config.cpp".into(), src.clone()), ("i.hpp".into(), "inc é\n".into())])?, false).map_err(|e| e.to_string())?;
        let p = super::pre::run_file(&ws, "config.cpp").map_err(|_| format!("{src:?} is refused"))?;
        let n = p.as_str().chars().count();
        let files = WorkspaceFiles::new();
        for b in 0..=n { for e in b..=n {
            o.steps(1);
            let d = Diagnostic::from_code_processed(&C(b..e), b..e, &p);
            let Some(d) = d else { ensure!(n == 0, "no diagnostic for {b}..{e} of {:?} from {src:?}", p.as_str()); continue };
            let m = p.mapping(b.min(n - 1)).ok_or("no mapping")?;
            let (path, text) = p.source(m.source()).ok_or("no source")?;
            let a = d.to_annotations(&files);
            ensure_eq!(a.len(), 1, "annotations");
            let (x, y) = (line_col(text, m.original_start()), m.original_start());
            ensure_eq!((a[0].path.as_str(), a[0].start_line, a[0].start_column), (path.as_str(), x.0, x.1), "place of {b}..{e} of {:?} from {src:?}", p.as_str());
            ensure!((a[0].end_line, a[0].end_column) >= x, "label of {b}..{e} of {:?} from {src:?} ends before it starts", p.as_str());
            // a span within one file ends where the token behind it starts
            if let Some(me) = p.mapping(e) { if e < n && me.source() == m.source() && me.original_start() >= y { let w = line_col(text, me.original_start()); ensure_eq!((a[0].end_line, a[0].end_column), w, "end of {b}..{e} of {:?} from {src:?}", p.as_str()); } }
            ensure!(d.to_string(&files).contains("label"), "label of {b}..{e} is not shown");
        } }
        // extraction works on characters
        let chars: Vec<char> = p.as_str().chars().collect();
        for b in 0..n { for e in b + 1..=n {
            ensure_eq!(&*p.extract(b..e), chars[b..e].iter().collect::<String>(), "extract {b}..{e}");
        } ensure_eq!(&*p.extract_from(b..), chars[b..].iter().collect::<String>(), "extract {b}..");
          ensure_eq!(p.get_byte_offset(b) as usize, chars[..b].iter().map(|c| c.len_utf8()).sum::<usize>(), "byte offset of {b}"); }
        o.state(p.as_str());
        Ok(())
    });
}

// ------------------------------------------------------------------ F04 the lint manager
struct T1(u32);
struct T2;
struct Ran(&'static str, String);
impl Code for Ran { fn ident(&self) -> &'static str { self.0 } fn message(&self) -> String { self.1.clone() } }
fn summary(c: &LintConfig) -> String { format!("{:?} {:?}", c.severity(), c.option("o").map(|v| v.to_string())) }
struct R1(&'static str);
impl LintRunner<u8> for R1 {
    type Target = T1;
    fn run(&self, _: Option<&ProjectConfig>, c: &LintConfig, _: Option<&Processed>, t: &T1, d: &u8) -> Codes { (0..t.0).map(|i| -> Arc<dyn Code> { Arc::new(Ran(self.0, format!("T1 {i} {d} {}", summary(c)))) }).collect() }
}
struct R2(&'static str);
impl LintRunner<u8> for R2 {
    type Target = T2;
    fn run(&self, _: Option<&ProjectConfig>, c: &LintConfig, _: Option<&Processed>, _: &T2, d: &u8) -> Codes { vec![Arc::new(Ran(self.0, format!("T2 {d} {}", summary(c))))] }
}
struct Group;
impl LintGroupRunner<u8> for Group {
    type Target = T1;
    fn run(&self, _: Option<&ProjectConfig>, c: HashMap<String, LintConfig>, _: Option<&Processed>, _: &T1, _: &u8) -> Codes {
        let c: BTreeMap<_, _> = c.into_iter().collect();
        vec![Arc::new(Ran("group", c.iter().map(|(k, v)| format!("{k}={};", summary(v))).collect()))]
    }
}
#[derive(Clone)]
struct L { id: &'static str, def: LintConfig, min: Severity, runners: u8 }
impl Lint<u8> for L {
    fn ident(&self) -> &'static str { self.id }
    fn description(&self) -> &'static str { "" }
    fn documentation(&self) -> &'static str { "" }
    fn default_config(&self) -> LintConfig { self.def.clone() }
    fn minimum_severity(&self) -> Severity { self.min }
    fn runners(&self) -> Vec<Box<dyn AnyLintRunner<u8>>> {
        let mut v: Vec<Box<dyn AnyLintRunner<u8>>> = vec![];
        if self.runners & 1 != 0 { v.push(Box::new(R1(self.id))); }
        if self.runners & 2 != 0 { v.push(Box::new(R2(self.id))); }
        v
    }
}
pub fn lints_check(ck: &Ck) {
    let sev = [Severity::Help, Severity::Note, Severity::Warning, Severity::Error];
    let ids = ["one", "two", "three"];
    // per lint: default severity, minimum, enabled by default, override
    let mut single = vec![];
    for d in 0..4usize { for m in 0..=d { for en in [true, false] { for ov in 0..12usize { single.push((d, m, en, ov)); } } } }
    let over = |ov: usize| -> Option<LintConfigOverride> {
        if ov == 11 { return None; }
        let j = match ov { 0 => "{}".to_string(), 1 => r#"{"enabled":true}"#.into(), 2 => r#"{"enabled":false}"#.into(), 3..=6 => format!(r#"{{"severity":"{}"}}"#, ["Help", "Note", "Warning", "Error"][ov - 3]), 7..=9 => format!(r#"{{"enabled":false,"severity":"{}"}}"#, ["Help", "Warning", "Error"][ov - 7]), _ => r#"{"options":{"o":5}}"#.into() };
        Some(serde_json::from_str(&j).expect("override"))
    };
    let eff = |&(d, _, en, ov): &(usize, usize, bool, usize)| -> (bool, Severity, bool) {
        let e = match ov { 1 => true, 2 | 7..=9 => false, _ => en };
        let s = match ov { 3..=6 => sev[ov - 3], 7..=9 => [Severity::Help, Severity::Warning, Severity::Error][ov - 7], _ => sev[d] };
        (e, s, ov == 10)
    };
    let mk = |i: usize, c: &(usize, usize, bool, usize), runners: u8| -> Arc<Box<dyn Lint<u8>>> { Arc::new(Box::new(L { id: ids[i], def: LintConfig::new(sev[c.0], HashMap::new()).with_enabled(c.2), min: sev[c.1], runners })) };
    let pairs: Vec<(usize, usize)> = { let n = single.len(); let st = 1; (0..n).flat_map(|a| (0..n).step_by(st).map(move |b| (a, b))).collect() };
    ck.explore("runs", "every pair of lints over default severity x minimum x enabled x override, one of them alone and both in a group: refused exactly when the setting goes below what is allowed, and exactly the enabled ones run on their kind of target with their resulting configuration", pairs, |&(a, b), o| {
        let (ca, cb) = (single[a], single[b]);
        let mut conf = HashMap::new();
        for (i, c) in [(0, ca), (1, cb), (2, ca)] { if let Some(x) = over(c.3) { conf.insert(ids[i].to_string(), x); } }
        let mut m: LintManager<u8> = LintManager::new(conf);
        let fine = |c: &(usize, usize, bool, usize)| { let (e, s, _) = eff(c); c.3 == 11 || (s >= sev[c.1] && (e || sev[c.1] != Severity::Error)) };
        let r = m.push(mk(0, &ca, 3));
        ensure_eq!(r.is_ok(), fine(&ca), "accepting {ca:?}: {:?}", r.err().map(|e| e.iter().map(|c| c.message()).collect::<Vec<_>>()));
        let dup = m.extend(vec![mk(0, &ca, 3)]);
        ensure_eq!(dup.is_err(), true, "a lint that is there already (or not allowed) is accepted");
        let r = m.push_group(vec![mk(1, &cb, 0), mk(2, &ca, 0)], Box::new(Group));
        ensure_eq!(r.is_ok(), fine(&ca) && fine(&cb), "accepting a group of {cb:?} and {ca:?}");
        let grouped = r.is_ok();
        let txt = |c: &(usize, usize, bool, usize)| { let (_, s, op) = eff(c); format!("{s:?} {:?}", op.then(|| "5".to_string())) };
        for n in 0..3u32 {
            let got: Vec<(String, String)> = m.run(&7, None, None, &T1(n)).iter().map(|c| (c.ident().to_string(), c.message())).collect();
            let mut want = vec![];
            if fine(&ca) && eff(&ca).0 { for i in 0..n { want.push(("one".to_string(), format!("T1 {i} 7 {}", txt(&ca)))); } }
            let mut g = String::new();
            if grouped { if eff(&ca).0 { g += &format!("three={};", txt(&ca)); } if eff(&cb).0 { g += &format!("two={};", txt(&cb)); } }
            if !g.is_empty() { want.push(("group".into(), g)); }
            ensure_eq!(got, want, "findings on a T1 with {ca:?} and {cb:?}");
        }
        let got: Vec<String> = m.run(&9, None, None, &T2).iter().map(|c| c.message()).collect();
        ensure_eq!(got, if fine(&ca) && eff(&ca).0 { vec![format!("T2 9 {}", txt(&ca))] } else { vec![] }, "findings on a T2 with {ca:?}");
        ensure!(m.run(&9, None, None, &5i32).is_empty(), "findings on a target no lint is for");
        o.steps(6); o.state((eff(&ca).0, format!("{:?}", eff(&ca).1), eff(&cb).0, format!("{:?}", eff(&cb).1), grouped));
        Ok(())
    });
}
