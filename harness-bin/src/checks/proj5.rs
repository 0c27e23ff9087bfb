//! The commands beside building: localization, value, and the utils.

use std::collections::{BTreeMap, BTreeSet};
use std::hash::{DefaultHasher, Hash, Hasher};

use sha1::{Digest, Sha1};

use super::proj::{self, read_pbo, Addon, Cmd, Conf, Files, Loc, Node, Proj, CONFS};
use crate::fw::{permutations, product, Ck};
use crate::{ensure, ensure_eq};

fn h<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- X09: localization

const LANGS: [&str; 24] = [
    "Original", "English", "Czech", "French", "Spanish", "Italian", "Polish", "Portuguese", "Russian", "German", "Korean", "Japanese", "Chinese", "Chinesesimp", "Turkish", "Swedish", "Slovak",
    "Serbocroatian", "Norwegian", "Icelandic", "Hungarian", "Greek", "Finnish", "Dutch",
];
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Key {
    id: String,
    /// (tag, text)
    texts: Vec<(String, String)>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Package {
    name: String,
    keys: Vec<Key>,
    containers: Vec<Package>,
}
type Table = Vec<Package>;

fn xml_package(p: &Package, tag: &str, depth: usize, o: &mut String) {
    let pad = "  ".repeat(depth);
    o.push_str(&format!("{pad}<{tag} name=\"{}\">\n", p.name));
    for k in &p.keys {
        o.push_str(&format!("{pad}  <Key ID=\"{}\">\n", k.id));
        for (t, s) in &k.texts {
            o.push_str(&format!("{pad}    <{t}>{s}</{t}>\n"));
        }
        o.push_str(&format!("{pad}  </Key>\n"));
    }
    for c in &p.containers {
        xml_package(c, "Container", depth + 1, o);
    }
    o.push_str(&format!("{pad}</{tag}>\n"));
}
fn xml(t: &Table) -> String {
    let mut o = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"x\">\n");
    for p in t {
        xml_package(p, "Package", 1, &mut o);
    }
    o.push_str("</Project>\n");
    o
}
/// What a stringtable says, without regard to layout.
fn read_xml(s: &str) -> Result<Table, String> {
    let attr = |t: &str| t.split('"').nth(1).unwrap_or("").to_string();
    let mut out = vec![];
    let mut stack: Vec<Package> = vec![];
    let mut key: Option<Key> = None;
    let mut text: Option<(String, String)> = None;
    for part in s.split('<').skip(1) {
        let (tag, after) = part.split_once('>').ok_or(format!("tag without end: {part}"))?;
        let name = tag.split_whitespace().next().unwrap_or("").to_string();
        match name.as_str() {
            "?xml" | "Project" | "/Project" => {}
            "Package" | "Container" => stack.push(Package { name: attr(tag), ..Package::default() }),
            "/Package" => out.push(stack.pop().ok_or("package")?),
            "/Container" => {
                let c = stack.pop().ok_or("container")?;
                stack.last_mut().ok_or("container outside")?.containers.push(c);
            }
            "Key" => key = Some(Key { id: attr(tag), texts: vec![] }),
            "/Key" => stack.last_mut().ok_or("key outside")?.keys.push(key.take().ok_or("key")?),
            n if n.starts_with('/') => key.as_mut().ok_or("text outside")?.texts.push(text.take().ok_or("text")?),
            n => text = Some((n.to_string(), after.to_string())),
        }
    }
    ensure!(stack.is_empty() && key.is_none(), "not closed");
    Ok(out)
}
fn rank(tag: &str) -> usize {
    LANGS.iter().position(|l| l.eq_ignore_ascii_case(tag)).unwrap_or(99)
}
fn sort_package(p: &mut Package, only_lang: bool) {
    for k in &mut p.keys {
        k.texts.sort_by_key(|t| rank(&t.0));
    }
    if !only_lang {
        p.keys.sort_by(|a, b| a.id.cmp(&b.id));
        p.containers.sort_by(|a, b| a.name.cmp(&b.name));
    }
    for c in &mut p.containers {
        sort_package(c, only_lang);
    }
}
fn sorted(t: &Table, only_lang: bool) -> Table {
    let mut t = t.clone();
    for p in &mut t {
        sort_package(p, only_lang);
    }
    if !only_lang {
        t.sort_by(|a, b| a.name.cmp(&b.name));
    }
    t
}
fn canonical(tag: &str) -> String {
    let l = tag.to_lowercase();
    l[..1].to_uppercase() + &l[1..]
}
fn rename(t: &mut Table) {
    fn go(p: &mut Package) {
        for k in &mut p.keys {
            for t in &mut k.texts {
                t.0 = canonical(&t.0);
            }
        }
        p.containers.iter_mut().for_each(go);
    }
    t.iter_mut().for_each(go);
}
fn all_keys(p: &Package) -> Vec<&Key> {
    p.keys.iter().chain(p.containers.iter().flat_map(all_keys)).collect()
}
/// Language -> (keys with it, addons with gaps)
fn coverage(tables: &[(String, Table)]) -> BTreeMap<String, (f64, BTreeSet<String>)> {
    let keys: Vec<&Key> = tables.iter().flat_map(|(_, t)| t.iter().flat_map(all_keys)).collect();
    let has = |k: &Key, l: &str| k.texts.iter().any(|t| t.0.eq_ignore_ascii_case(l));
    let mut o = BTreeMap::new();
    for l in LANGS {
        let n = keys.iter().filter(|k| has(k, l)).count();
        if n > 0 {
            let gaps = tables.iter().filter(|(_, t)| t.iter().flat_map(all_keys).any(|k| !has(k, l))).map(|(a, _)| a.clone()).collect();
            o.insert(canonical(l), (n as f64 / keys.len() as f64 * 100.0, gaps));
        }
    }
    o
}
/// `tables` are at `<folder>/stringtable.xml`; those in sub-folders of addons are sorted, but not
/// counted.
fn localization(tables: &[(String, Table)], nested: &[(String, Table)], broken: Option<&str>) -> Result<u64, String> {
    let mut f = proj::files(&[("docs/stringtable.xml", "not mine"), (".hemtt/project.toml", "name = \"n\"\nprefix = \"p\"\n[version]\nmajor = 1\nminor = 2\npatch = 3\ngit_hash = 0\n")]);
    for (d, t) in tables {
        f.insert(format!("{d}/$PBOPREFIX$"), format!("z\\p\\{d}").replace('/', "\\").into_bytes());
        f.insert(format!("{d}/other.xml"), xml(t).into_bytes());
        f.insert(format!("{d}/stringtable.xml"), xml(t).into_bytes());
    }
    for (d, t) in nested {
        f.insert(format!("{d}/stringtable.xml"), xml(t).into_bytes());
    }
    if let Some(b) = broken {
        f.insert(format!("{b}/$PBOPREFIX$"), format!("z\\p\\{b}").replace('/', "\\").into_bytes());
        f.insert(format!("{b}/stringtable.xml"), b"<Project".to_vec());
    }
    let p = Proj::new(&f);
    let before = p.sources();
    let o = p.run(&["localization", "coverage", "--format", "json"]);
    ensure!(o.code < 2, "coverage: exit code {}; {}", o.code, o.tail());
    ensure!(p.sources() == before, "coverage changed {:?}", proj::diff(&before, &p.sources()));
    let mut seen = 0;
    if broken.is_none() {
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let last = text.lines().rfind(|l| l.starts_with("[{") || *l == "[]").unwrap_or("").to_string();
        let v: serde_json::Value = serde_json::from_str(&last).map_err(|e| format!("{e}: {last}"))?;
        let rows = v.as_array().ok_or("not a list")?;
        let want = coverage(tables);
        let got: Vec<&str> = rows.iter().filter_map(|r| r["language"].as_str()).collect();
        let order: Vec<String> = LANGS.iter().map(|l| canonical(l)).filter(|l| want.contains_key(l)).collect();
        ensure_eq!(got, order, "languages");
        for r in rows {
            let (pc, gaps) = &want[r["language"].as_str().unwrap()];
            ensure!((r["percent"].as_f64().unwrap_or(-1.0) - pc).abs() < 1e-9, "{r}: expected {pc}");
            let m: Vec<String> = r["missing"].as_array().ok_or("missing")?.iter().filter_map(|a| a.as_str()).map(str::to_string).collect();
            ensure_eq!(m.len(), gaps.len(), "{r}: addons with gaps");
            ensure_eq!(&m.into_iter().collect::<BTreeSet<_>>(), gaps, "{}: addons with gaps", r["language"]);
        }
        seen = h(&last);
    }
    for only_lang in [true, false] {
        let mut args = vec!["localization", "sort"];
        if only_lang {
            args.push("--only-lang");
        }
        for round in 0..2 {
            let now = p.sources();
            let o = p.run(&args);
            ensure!(o.code < 2, "{args:?}: exit code {}; {}", o.code, o.tail());
            let after = p.sources();
            if round == 1 && broken.is_none() {
                ensure!(now == after, "{args:?} again changed {:?}", proj::diff(&now, &after));
            }
            for (n, v) in &before {
                let Some(d) = n.strip_suffix("/stringtable.xml") else {
                    ensure!(after.get(n) == Some(v), "{args:?} changed {n}");
                    continue;
                };
                let Some((_, t)) = tables.iter().chain(nested).find(|(x, _)| x == d) else {
                    ensure!(after.get(n) == Some(v), "{args:?} changed {n}");
                    continue;
                };
                let Some(Node::File(b)) = after.get(n) else { return Err(format!("{args:?}: {n} is gone")) };
                let text = String::from_utf8_lossy(b);
                if broken.is_some() && now.get(n) == after.get(n) {
                    continue;
                }
                let mut want = sorted(t, only_lang);
                rename(&mut want);
                ensure_eq!(read_xml(&text)?, want, "{args:?}: {n}");
            }
            ensure_eq!(after.len(), before.len(), "{args:?}: files");
        }
        if only_lang {
            // the second command starts from the original again
            p.put(&f);
        }
    }
    Ok(h((seen, p.sources().values().map(|v| if let Node::File(b) = v { b.clone() } else { vec![] }).collect::<Vec<_>>())))
}
const TEXTS: [&[usize]; 4] = [&[1], &[9, 1], &[23, 0, 1], &[]];
fn table(places: &[usize], ids: &[&str], langs: &[usize], names: [&str; 4]) -> Table {
    let mut t: Vec<Package> = names[..2].iter().map(|n| Package { name: n.to_string(), ..Package::default() }).collect();
    for (i, p) in places.iter().enumerate() {
        let k = Key { id: ids[i].to_string(), texts: TEXTS[langs[i]].iter().map(|l| (canonical(LANGS[*l]), format!("{} of {}", LANGS[*l], ids[i]))).collect() };
        let at = |v: &mut Vec<Package>, n: &str| -> usize {
            v.iter().position(|c| c.name == n).unwrap_or_else(|| {
                v.push(Package { name: n.to_string(), ..Package::default() });
                v.len() - 1
            })
        };
        match p {
            0 | 1 => t[*p].keys.push(k),
            2 => {
                let c = at(&mut t[0].containers, names[2]);
                t[0].containers[c].keys.push(k);
            }
            3 => {
                let c = at(&mut t[0].containers, names[3]);
                t[0].containers[c].keys.push(k);
            }
            _ => {
                let c = at(&mut t[1].containers, names[3]);
                let d = at(&mut t[1].containers[c].containers, names[2]);
                t[1].containers[c].containers[d].keys.push(k);
            }
        }
    }
    t
}
pub fn x09(ck: &Ck) {
    ck.hang_secs(300);
    let names = [["b", "a", "d", "c"], ["a", "B", "x1", "x"]];
    let mut cases = vec![];
    for places in crate::fw::seqs(&[0usize, 1, 2, 3, 4], 3, 3) {
        for ids in permutations(&["STR_b", "STR_a", "STR_A1"]) {
            for n in ck.t(&names[..1], &names[..]) {
                cases.push((places.clone(), ids.clone(), *n));
            }
        }
    }
    ck.explore("tables", "every place of three keys in packages and containers x every order of them x (as addons of one project) every choice of translations: coverage counts every key, sorting sorts it all and changes nothing else", cases, |(places, ids, n), o| {
        let tables: Vec<(String, Table)> = crate::fw::seqs(&[0usize, 1, 2, 3], 3, 3).enumerate().map(|(i, l)| (format!("{}/a{i}", if i % 3 == 0 { "optionals" } else { "addons" }), table(places, ids, &l, *n))).collect();
        o.steps(tables.len() as u64);
        o.state(localization(&tables, &[], None)?);
        Ok(())
    });
    let key = |id: &str, langs: &[usize], tag: fn(&str) -> String| Key { id: id.into(), texts: langs.iter().map(|l| (tag(LANGS[*l]), format!("text {l}"))).collect() };
    let tags: [fn(&str) -> String; 3] = [canonical, |t| t.to_lowercase(), |t| t.to_uppercase()];
    let mut cases: Vec<(usize, Vec<usize>, Vec<usize>)> = vec![];
    for a in 0..24 {
        for b in 0..24 {
            cases.push(((a + b) % 3, vec![a], if a == b { (0..24).rev().collect() } else { vec![b, a] }));
        }
    }
    ck.explore("languages", "every pair of languages in two keys, tags in every case: coverage and order", cases, |(t, a, b), o| {
        let tables = vec![("addons/a".to_string(), vec![Package { name: "p".into(), keys: vec![key("STR_b", a, tags[*t]), key("STR_a", b, tags[*t])], containers: vec![] }])];
        o.steps(1);
        o.state(localization(&tables, &[], None)?);
        Ok(())
    });
    let mut cases = vec![];
    for (places, ids) in product(&crate::fw::seqs(&[0usize, 1, 2], 2, 2).collect::<Vec<_>>(), &permutations(&["STR_b", "STR_a"])) {
        for broken in [None, Some("addons/z"), Some("addons/A"), Some("optionals/m")] {
            for shape in 0..4 {
                cases.push((places.clone(), ids.clone(), broken, shape));
            }
        }
    }
    ck.explore("projects", "which stringtables are looked at: addons, optionals, sub-folders, none, one that is not XML", cases, |(places, ids, broken, shape), o| {
        let t = table(places, ids, &[1, 2], names[0]);
        let s = |n: &str| (n.to_string(), t.clone());
        let (tables, nested) = match shape {
            0 => (vec![], vec![]),
            1 => (vec![s("optionals/o")], vec![]),
            2 => (vec![s("addons/a"), s("addons/b"), s("optionals/o")], vec![s("addons/a/sub/deep"), s("optionals/o/x")]),
            _ => (vec![s("addons/b")], vec![s("addons/b/addons/c")]),
        };
        o.steps(1);
        o.state(localization(&tables, &nested, *broken)?);
        Ok(())
    });
}

// ---------------------------------------------------------------- X10: archives with the utils

/// An archive as other tools write it.
pub fn pbo(props: &[(&str, &str)], list: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut o = vec![];
    let head = |o: &mut Vec<u8>, n: &str, method: u32, size: usize| {
        o.extend_from_slice(n.as_bytes());
        o.push(0);
        for v in [method, 0, 0, 0, size as u32] {
            o.extend_from_slice(&v.to_le_bytes());
        }
    };
    head(&mut o, "", 0x5665_7273, 0);
    for (k, v) in props {
        o.extend_from_slice(k.as_bytes());
        o.push(0);
        o.extend_from_slice(v.as_bytes());
        o.push(0);
    }
    o.push(0);
    for (n, c) in list {
        head(&mut o, n, 0, c.len());
    }
    head(&mut o, "", 0, 0);
    for (_, c) in list {
        o.extend_from_slice(c);
    }
    let sum = Sha1::digest(&o);
    o.push(0);
    o.extend_from_slice(&sum);
    o
}
/// The files and folders below `out` that these files make.
fn unpacked(props: &[(&str, &str)], list: &[(String, Vec<u8>)]) -> BTreeMap<String, Node> {
    let mut o = BTreeMap::new();
    let mut text = String::new();
    for (k, v) in props {
        if *k == "prefix" {
            o.insert("$PBOPREFIX$".to_string(), Node::File(v.as_bytes().to_vec()));
        } else {
            text.push_str(&format!("{k}={v}\n"));
            o.insert("properties.txt".to_string(), Node::File(text.clone().into_bytes()));
        }
    }
    for (n, c) in list {
        let n = n.replace('\\', "/");
        for (i, _) in n.match_indices('/') {
            o.insert(n[..i].to_string(), Node::Dir);
        }
        o.insert(n, Node::File(c.clone()));
    }
    o
}
fn base_tree(p: &Proj, without: &str) -> BTreeMap<String, Node> {
    proj::tree(p.base()).into_iter().filter(|(n, _)| n != without && !n.starts_with(&format!("{without}/"))).collect()
}
/// Unpacking never writes outside of the output, and gives every file if all have plain names.
fn unpack(names: &[String], nested_out: bool, exists: bool) -> Result<u64, String> {
    let p = Proj::new(&proj::files(&[("keep.txt", "keep"), ("a", "a file"), ("../keep.txt", "keep"), ("../../keep/x.txt", "keep")]));
    let base = p.base().to_string_lossy().to_string();
    let props = [("prefix", "z\\p\\addons\\a"), ("version", "1.2.3"), ("a", "b=c")];
    let list: Vec<(String, Vec<u8>)> = names.iter().enumerate().map(|(i, n)| (n.replace("ROOT", &base), format!("content {i} of {n}").into_bytes())).collect();
    std::fs::write(p.root.join("x.pbo"), pbo(&props, &list)).map_err(|e| e.to_string())?;
    let out = if nested_out { "new/out" } else { "out" };
    if exists {
        p.put(&proj::files(&[(&format!("{out}/old.txt"), "old")]));
    }
    let rel = format!("home/u/p/{out}");
    let top = format!("home/u/p/{}", out.split('/').next().unwrap());
    let before = base_tree(&p, &top);
    let o = p.run(&["utils", "pbo", "unpack", "x.pbo", out]);
    ensure!(o.code < 2, "exit code {}; {}", o.code, o.tail());
    let after = base_tree(&p, &top);
    ensure!(before == after, "wrote outside of {out}: {:?}", proj::diff(&before, &after));
    let got = proj::tree(&p.base().join(&rel));
    if exists {
        ensure_eq!(got.keys().collect::<Vec<_>>(), vec!["old.txt"], "an existing folder was changed");
        return Ok(1);
    }
    let plain = |n: &String| n.replace('\\', "/").split('/').all(|c| !matches!(c, "" | "." | ".."));
    let conflict = (0..names.len()).any(|i| (0..names.len()).any(|j| i != j && format!("{}/", names[j].replace('\\', "/")).starts_with(&format!("{}/", names[i].replace('\\', "/")))));
    if list.iter().all(|(n, _)| plain(n)) && !conflict {
        ensure_eq!(o.code, 0, "exit code; {}", o.tail());
        ensure_eq!(got, unpacked(&props, &list), "unpacked");
    }
    Ok(h((o.code, got.len())))
}
/// The archives that hemtt made, with its own tools.
fn tools(shapes: &[usize], c: Conf) -> Result<u64, String> {
    let names = ["a", "b", "c"];
    let addons: Vec<Addon> = shapes.iter().enumerate().map(|(i, s)| Addon { loc: Loc::Addons, name: names[i], shape: *s }).collect();
    let p = Proj::new(&proj::project(&addons, c));
    if c == Conf(6) {
        proj::git_init(&p);
    }
    let o = p.run(&Cmd::Release.args());
    ensure_eq!(o.code, 0, "release; {}", o.tail());
    let out = p.sub(".hemttout/release");
    let bikeys: Vec<&String> = out.keys().filter(|n| n.ends_with(".bikey")).collect();
    let mut seen = vec![];
    for (n, v) in &out {
        let (true, Node::File(b)) = (n.ends_with(".pbo"), v) else { continue };
        let a = read_pbo(b)?;
        let path = format!(".hemttout/release/{n}");
        // unpack
        let o = p.run(&["utils", "pbo", "unpack", &path, "un"]);
        ensure_eq!(o.code, 0, "unpack {n}; {}", o.tail());
        let got: BTreeMap<String, Node> = p.sub("un");
        let props: Vec<(&str, &str)> = a.props.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        let mut want = unpacked(&props, &a.files);
        // the order of properties is that of the archive
        let lines = |t: &BTreeMap<String, Node>| t.get("properties.txt").map(|n| if let Node::File(b) = n { String::from_utf8_lossy(b).lines().map(str::to_string).collect::<BTreeSet<_>>() } else { BTreeSet::new() });
        ensure_eq!(lines(&got), lines(&want), "properties of {n}");
        if let Some(t) = got.get("properties.txt") {
            want.insert("properties.txt".into(), t.clone());
        }
        ensure!(got == want, "unpacking {n}: {:?}", proj::diff(&got, &want));
        std::fs::remove_dir_all(p.root.join("un")).map_err(|e| e.to_string())?;
        // extract
        for (f, c) in &a.files {
            for name in [f.clone(), f.to_uppercase(), f.replace('\\', "/")] {
                let o = p.run(&["utils", "pbo", "extract", &path, &name, "one.out"]);
                ensure_eq!(o.code, 0, "extract {name}; {}", o.tail());
                ensure!(std::fs::read(p.root.join("one.out")).is_ok_and(|g| g == *c), "extracting {name} of {n} gives something else");
                let o = p.run(&["utils", "pbo", "extract", &path, &format!("{name}x"), "one.out"]);
                ensure!(o.code < 2 && std::fs::read(p.root.join("one.out")).is_ok_and(|g| g == *c), "extracting a file that does not exist changed the output");
                std::fs::write(p.root.join("one.out"), "old").map_err(|e| e.to_string())?;
                let o = p.run(&["utils", "pbo", "extract", &path, &name, "one.out"]);
                ensure!(o.code < 2 && std::fs::read(p.root.join("one.out")).is_ok_and(|g| g == b"old"), "extracting changed an existing file");
                std::fs::remove_file(p.root.join("one.out")).map_err(|e| e.to_string())?;
            }
            let o = p.run(&["utils", "pbo", "extract", &path, f]);
            ensure!(o.code == 0 && o.stdout.ends_with(c), "extracting {f} of {n} to the terminal");
        }
        let o = p.run(&["utils", "pbo", "extract", &path, "nothere.txt", "one.out"]);
        ensure!(o.code < 2 && !p.root.join("one.out").exists(), "extracting a file that does not exist made one");
        // inspect
        let o = p.run(&["utils", "pbo", "inspect", &path, "--format", "json"]);
        ensure_eq!(o.code, 0, "inspect; {}", o.tail());
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let json = text.lines().rfind(|l| l.starts_with('[')).ok_or("no list")?;
        let v: serde_json::Value = serde_json::from_str(json).map_err(|e| format!("{e}: {json}"))?;
        let got: Vec<(String, u64)> = v.as_array().ok_or("list")?.iter().map(|r| (r["filename"].as_str().unwrap_or("").to_string(), r["size"].as_u64().unwrap_or(u64::MAX))).collect();
        ensure_eq!(got, a.files.iter().map(|(n, c)| (n.clone(), c.len() as u64)).collect::<Vec<_>>(), "files of {n}");
        for (k, v) in &a.props {
            ensure!(text.contains(&format!("  - {k}: {v}\n")), "inspecting {n} does not show {k}");
        }
        let sum: String = b[b.len() - 20..].iter().map(|x| format!("{x:02x}")).collect();
        ensure_eq!(text.to_lowercase().matches(&sum).count(), 2, "inspecting {n} does not show its checksum twice");
        // verify
        for k in &bikeys {
            let o = p.run(&["utils", "verify", &path, &format!(".hemttout/release/{k}")]);
            ensure!(o.code == 0 && o.text().contains("Verified!"), "{n} does not verify; {}", o.tail());
            for (at, name) in [(b.len() - 22, "content"), (30, "header")] {
                if a.files.iter().all(|(_, c)| c.is_empty()) && name == "content" {
                    continue;
                }
                let mut bad = b.clone();
                bad[at] ^= 1;
                let good = bad.len() - 21;
                let sum = Sha1::digest(&bad[..good]);
                bad[good + 1..].copy_from_slice(&sum);
                std::fs::write(p.root.join(&path), &bad).map_err(|e| e.to_string())?;
                let o = p.run(&["utils", "verify", &path, &format!(".hemttout/release/{k}")]);
                ensure!(!o.text().contains("Verified!"), "{n} with changed {name} verifies");
            }
            std::fs::write(p.root.join(&path), b).map_err(|e| e.to_string())?;
        }
        seen.push((n.clone(), a.files.len()));
    }
    ensure!(bikeys.len() == 1 || c == Conf(4), "{} keys", bikeys.len());
    Ok(h(seen))
}
/// `hemtt value` tells what the project says.
fn value(list: &[&str], toml: &str, want: &BTreeMap<&str, String>) -> Result<u64, String> {
    let p = Proj::new(&proj::files(&[(".hemtt/project.toml", toml), ("addons/main/script_version.hpp", "#define MAJOR 4\n#define MINOR 5\n#define PATCH 6\n#define BUILD 7\n"), ("addons/a/ver.hpp", "#define MAJOR 8\n#define MINOR 0\n#define PATCHLVL 2\n"), ("addons/main/$PBOPREFIX$", "z\\p\\addons\\main"), ("addons/a/$PBOPREFIX$", "z\\p\\addons\\a")]));
    let before = p.sources();
    let mut got = vec![];
    for k in list {
        let o = p.run(&["value", k]);
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        match want.get(k) {
            Some(w) => ensure_eq!((o.code, text.trim_end_matches('\n')), (0, w.trim_end_matches('\n')), "{k}"),
            None => ensure!(o.code == 1, "{k}: exit code {}", o.code),
        }
        got.push(text);
    }
    ensure!(p.sources() == before, "sources changed");
    Ok(h(got))
}
const KEYS: [&str; 17] = [
    "project.name", "project.prefix", "project.mainprefix", "project.properties", "project.version", "project.version.short", "project.version.major", "project.version.minor", "project.version.patch", "project.version.build",
    "project.version.path", "project.version.git_hash", "project.signing.authority", "project.signing.version", "project.files.include", "project.files.exclude", "project.nothing",
];
fn values(name: usize, version: usize, rest: usize) -> (String, BTreeMap<&'static str, String>) {
    let (n, pre, main) = [("My Mod", "p", None), ("x", "my.mod", Some("z")), ("ä \\\"q\\\"", "P_1", Some("x\\\\y"))][name];
    let unesc = |s: &str| s.replace("\\\"", "\"").replace("\\\\", "\\");
    let (vt, v, path): (&str, [Option<&str>; 4], &str) = [
        ("major = 1\nminor = 2\npatch = 3\ngit_hash = 0\n", [Some("1"), Some("2"), Some("3"), None], "addons/main/script_version.hpp"),
        ("major = 10\nminor = 0\npatch = 0\nbuild = 12\ngit_hash = 0\n", [Some("10"), Some("0"), Some("0"), Some("12")], "addons/main/script_version.hpp"),
        ("git_hash = 0\n", [Some("4"), Some("5"), Some("6"), Some("7")], "addons/main/script_version.hpp"),
        ("path = \"addons\\\\a\\\\ver.hpp\"\ngit_hash = 0\n", [Some("8"), Some("0"), Some("2"), None], "addons/a/ver.hpp"),
    ][version];
    let (rt, auth, sv, props, inc, exc): (&str, Option<&str>, &str, &str, &[&str], &[&str]) = [
        ("", None, "3", "", &[][..], &[][..]),
        ("[files]\ninclude = [\"a/*\", \"/b.txt\"]\nexclude = [\"*.md\", \"x\"]\n[signing]\nauthority = \"auth\"\nversion = 2\n", Some("auth"), "2", "", &["/a/*", "/b.txt"][..], &["*.md", "x"][..]),
        ("[properties]\nb = \"2\"\na = \"1\"\nd = \"\"\nc = \"x y\"\n", None, "3", "a: 1\nb: 2\nc: x y\nd: \n", &[][..], &[][..]),
    ][rest];
    let toml = format!("name = \"{n}\"\nprefix = \"{pre}\"\n{}[version]\n{vt}{rt}", main.map_or(String::new(), |m| format!("mainprefix = \"{m}\"\n")));
    let full = v.iter().flatten().copied().collect::<Vec<_>>().join(".");
    let mut w = BTreeMap::new();
    w.insert(KEYS[0], unesc(n));
    w.insert(KEYS[1], pre.to_string());
    w.insert(KEYS[2], unesc(main.unwrap_or("")));
    w.insert(KEYS[3], props.to_string());
    w.insert(KEYS[4], full.clone());
    w.insert(KEYS[5], v[..3].iter().flatten().copied().collect::<Vec<_>>().join("."));
    for i in 0..4 {
        w.insert(KEYS[6 + i], v[i].unwrap_or("").to_string());
    }
    w.insert(KEYS[10], path.to_string());
    w.insert(KEYS[11], "0".into());
    w.insert(KEYS[12], format!("{}_{full}", auth.unwrap_or(pre)));
    w.insert(KEYS[13], format!("V{sv}"));
    let mut all: Vec<&str> = inc.to_vec();
    all.extend(["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"]);
    all.sort_unstable();
    w.insert(KEYS[14], all.join("\n"));
    w.insert(KEYS[15], exc.join("\n"));
    (toml, w)
}

pub fn x10(ck: &Ck) {
    ck.hang_secs(300);
    let comps = ["a", "..", ".", "", "b.txt"];
    let mut names: Vec<String> = vec![];
    for s in crate::fw::seqs(&comps, 1, 3) {
        for sep in ["\\", "/"] {
            let n = s.join(sep);
            // an empty name ends the list of files
            if !n.is_empty() && !names.contains(&n) {
                names.push(n);
            }
        }
    }
    for n in ["ROOT/abs.txt", "ROOT\\abs\\x.txt", "/ROOT/abs.txt", "\\ROOT\\abs.txt", "a\\..\\..\\..\\keep.txt", "a/../../keep.txt", "..\\..\\..\\keep\\x.txt", "a\\ROOT\\abs.txt", "a..b\\c..", "...", "a\\...\\b", "ä\\ö ü.txt", "..."] {
        names.push(n.into());
    }
    let mut cases = vec![];
    for n in &names {
        for nested in [false, true] {
            for exists in [false, true] {
                cases.push((vec![n.clone()], nested, exists));
            }
        }
    }
    let some: Vec<String> = names.iter().step_by(ck.t(4, 1)).cloned().collect();
    for a in ["c\\d.txt".to_string(), "..\\esc.txt".into()] {
        for b in &some {
            cases.push((vec![a.clone(), b.clone()], false, false));
            cases.push((vec![b.clone(), a.clone()], true, false));
        }
    }
    ck.explore("unpack", "every name of up to three parts, plain and with '..', '.', empty and absolute parts, alone and with another file: nothing is written outside of the output folder, existing folders stay, plain names come out exactly", cases, |(l, n, e), o| {
        o.steps(1);
        o.state(unpack(l, *n, *e)?);
        Ok(())
    });
    let mut cases = vec![];
    for c in 0..CONFS {
        for s in 0..proj::SHAPES {
            if c < 2 || s % 4 == c % 4 || !ck.quick() {
                cases.push((vec![s], Conf(c)));
            }
        }
    }
    ck.explore("tools", "every archive of every addon shape and project setting: unpack, extract, inspect and verify agree with what is in it", cases, |(s, c), o| {
        o.steps(1);
        o.state(tools(s, *c)?);
        Ok(())
    });
    let mut cases = vec![];
    for n in 0..3 {
        for v in 0..4 {
            for r in 0..3 {
                cases.push((n, v, r));
            }
        }
    }
    ck.explore("value", "every combination of project settings: every value is that of the project", cases, |(n, v, r), o| {
        o.steps(KEYS.len() as u64);
        let (toml, want) = values(*n, *v, *r);
        o.state(value(&KEYS, &toml, &want)?);
        Ok(())
    });
}

// ---------------------------------------------------------------- X11: utils sqf case

const WORDS: [&str; 16] = ["Player", "HINT", "setPos", "\"", "'", "/", "*", "\n", " ", "(", ")", ",", "x_Str", "é", "\\", "LOG"];
#[derive(Clone, Copy, PartialEq, Eq)]
enum St {
    Code,
    Double,
    Single,
    Line,
    Block,
}
/// The words of code, as byte ranges, with: may be left as they are
fn words(s: &str) -> Vec<(usize, usize, bool)> {
    let b = s.as_bytes();
    let mut st = St::Code;
    let mut out = vec![];
    let mut i = 0;
    let mut ignore = false;
    let is = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        match st {
            St::Code => match b[i] {
                b'"' => st = St::Double,
                b'\'' => st = St::Single,
                b'/' if b.get(i + 1) == Some(&b'/') => {
                    st = St::Line;
                    i += 1;
                }
                b'/' if b.get(i + 1) == Some(&b'*') => {
                    st = St::Block;
                    i += 1;
                }
                b')' | b',' => ignore = false,
                c if is(c) => {
                    let mut j = i;
                    while j < b.len() && is(b[j]) {
                        j += 1;
                    }
                    let macro_ = b.get(j) == Some(&b'(') && s[i..j].to_uppercase() == s[i..j];
                    out.push((i, j, ignore || macro_));
                    ignore |= macro_;
                    i = j;
                    continue;
                }
                _ => {}
            },
            St::Double if b[i] == b'"' => st = St::Code,
            St::Single if b[i] == b'\'' => st = St::Code,
            St::Line if b[i] == b'\n' => st = St::Code,
            St::Block if b[i] == b'*' && b.get(i + 1) == Some(&b'/') => {
                st = St::Code;
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    out
}
const COMMANDS: [(&str, &str); 4] = [("player", "player"), ("hint", "hint"), ("setpos", "setPos"), ("str", "str")];
fn case(from: &str, to: &str) -> Result<(), String> {
    ensure_eq!(to.len(), from.len(), "length of {to:?}");
    let ws = words(from);
    for (i, (a, b)) in from.bytes().zip(to.bytes()).enumerate() {
        ensure!(a == b || ws.iter().any(|(s, e, _)| *s <= i && i < *e), "{from:?} became {to:?}: changed outside of code");
    }
    for (s, e, free) in ws {
        let (a, b) = (&from[s..e], &to[s..e]);
        let want = COMMANDS.iter().find(|c| c.0 == a.to_lowercase()).map_or(a, |c| c.1);
        ensure!(b == want || (free && a == b), "{from:?} became {to:?}: {a} should be {want}");
    }
    Ok(())
}
fn cases_dir(list: &[Vec<usize>], base: &[&str], one: bool) -> Result<u64, String> {
    let mut f = Files::new();
    let name = |i: usize| format!("src/{}/f{i}.sqf", i % 7);
    for (i, l) in list.iter().enumerate() {
        let s: String = l.iter().map(|w| base[*w]).collect();
        f.insert(name(i), s.into_bytes());
    }
    let others = proj::files(&[("src/a.txt", "Player HINT"), ("src/1/b.hpp", "Player HINT"), ("other.sqf", "Player")]);
    f.extend(others.clone());
    let p = Proj::new(&f);
    let mut first: BTreeMap<String, Node> = BTreeMap::new();
    for _ in 0..2 {
        if one {
            for i in 0..list.len() {
                let o = p.run(&["utils", "sqf", "case", &name(i)]);
                ensure_eq!(o.code, 0, "exit code; {}", o.tail());
            }
        } else {
            let o = p.run_env(&["utils", "sqf", "case", "src"], &[], 2);
            ensure_eq!(o.code, 0, "exit code; {}", o.tail());
        }
        let now = p.sources();
        for (n, c) in &others {
            ensure!(now.get(n) == Some(&Node::File(c.clone())), "changed {n}");
        }
        for i in 0..list.len() {
            let Some(Node::File(b)) = now.get(&name(i)) else { return Err(format!("{} is gone", name(i))) };
            // a second run changes at most what the first one was free to leave
            let from = match first.get(&name(i)) {
                Some(Node::File(b)) => String::from_utf8_lossy(b).to_string(),
                _ => String::from_utf8_lossy(&f[&name(i)]).to_string(),
            };
            case(&from, std::str::from_utf8(b).map_err(|_| format!("{from:?}: not UTF-8"))?)?;
        }
        first = now;
    }
    Ok(h(first.iter().map(|(n, v)| format!("{n}{v:?}")).collect::<Vec<_>>()))
}
pub fn x11(ck: &Ck) {
    ck.hang_secs(300);
    let all: Vec<usize> = (0..WORDS.len()).collect();
    let mut batches: Vec<Vec<Vec<usize>>> = vec![];
    let mut now = vec![];
    for s in crate::fw::seqs(&all, 0, ck.t(4, 5)) {
        now.push(s);
        if now.len() == 1024 {
            batches.push(std::mem::take(&mut now));
        }
    }
    batches.push(now);
    ck.explore("sequences", "every sequence of commands, quotes, comment signs, brackets and other text: commands get their case, strings, comments and other files stay, a second run changes nothing", batches.into_iter().enumerate().map(|(i, b)| Batch(i, b)), |b, o| {
        o.steps(b.1.len() as u64);
        o.state(cases_dir(&b.1, &WORDS, false)?);
        Ok(())
    });
    let core: Vec<usize> = vec![0, 3, 4, 5, 6, 7, 8];
    let mut batches: Vec<Vec<Vec<usize>>> = vec![];
    let mut now = vec![];
    for s in crate::fw::seqs(&core, 5, ck.t(6, 7)) {
        now.push(s);
        if now.len() == 1024 {
            batches.push(std::mem::take(&mut now));
        }
    }
    batches.push(now);
    ck.explore("strings-and-comments", "the same for longer sequences of a command, quotes and comment signs", batches.into_iter().enumerate().map(|(i, b)| Batch(i, b)), |b, o| {
        o.steps(b.1.len() as u64);
        o.state(cases_dir(&b.1, &WORDS, false)?);
        Ok(())
    });
    let singles: Vec<Vec<usize>> = crate::fw::seqs(&all, 1, 2).collect();
    ck.explore("single-files", "the same for single files", singles.chunks(16).enumerate().map(|(i, b)| Batch(i, b.to_vec())).collect::<Vec<_>>(), |b, o| {
        o.steps(b.1.len() as u64);
        o.state(cases_dir(&b.1, &WORDS, true)?);
        Ok(())
    });
}
struct Batch(usize, Vec<Vec<usize>>);
impl std::fmt::Debug for Batch {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "batch {} of {} texts", self.0, self.1.len())
    }
}
