//! What the tools for single files say about them.

use std::hash::{DefaultHasher, Hash, Hasher};

use super::paa;
use super::proj::{self, Files, Node, Proj};
use super::proj5::pbo;
use crate::fw::{fill, Ck};
use crate::{ensure, ensure_eq};

fn h<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- files

fn le(v: u32) -> [u8; 4] {
    v.to_le_bytes()
}
fn number(bits: u32, salt: usize) -> Vec<u8> {
    let n = bits as usize / 8;
    match salt {
        0 => fill(n, 7),
        // most significant bytes are zero
        1 => (0..n).map(|i| if i + 3 < n { i as u8 | 1 } else { 0 }).collect(),
        2 => vec![0xff; n],
        _ => vec![0; n],
    }
}
fn bikey(authority: &str, bits: u32, exponent: u32, salt: usize) -> Vec<u8> {
    let mut b = authority.as_bytes().to_vec();
    b.push(0);
    b.extend(le(bits / 8 + 20));
    b.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
    b.extend(le(bits));
    b.extend(le(exponent));
    b.extend(number(bits, salt));
    b
}
fn bisign(authority: &str, bits: u32, exponent: u32, salt: usize, version: u32) -> Vec<u8> {
    let mut b = bikey(authority, bits, exponent, salt);
    for i in 0..3 {
        b.extend(le(bits / 8));
        b.extend(number(bits, i));
        if i == 0 {
            b.extend(le(version));
        }
    }
    b
}
fn hex(le: &[u8]) -> String {
    let s: String = le.iter().rev().map(|b| format!("{b:02x}")).collect();
    let s = s.trim_start_matches('0');
    if s.is_empty() { "0".into() } else { s.into() }
}
fn rows(s: &str, pad: usize) -> String {
    s.as_bytes().chunks(20).map(|c| String::from_utf8_lossy(c).to_string()).collect::<Vec<_>>().join(&format!("\n{}", " ".repeat(pad)))
}

#[derive(Clone, Debug)]
enum What {
    Key(&'static str, u32, u32, usize),
    Sign(&'static str, u32, u32, usize, u32),
    /// kind, sizes, compression
    Paa(u8, Vec<(usize, usize)>, u8),
    /// files by number and order
    Pbo(usize),
    /// configs by number
    Config(usize),
}
const PBOS: [&[(&str, &str)]; 6] = [&[], &[("a.txt", "hello")], &[("b\\c.sqf", "x"), ("a.txt", "")], &[("a.txt", "1"), ("A\\b.txt", "22"), ("c d.txt", "333")], &[("z.txt", "z"), ("a.txt", "a")], &[("ä.txt", "ö")]];
/// (content, diagnosed or wrong, patches)
const CONFIGS: [(&str, bool, &[(&str, &str)]); 9] = [
    ("", true, &[]),
    ("class A {};\n", true, &[]),
    ("class CfgPatches {\n  class my_mod {\n    requiredVersion = 2.5;\n    units[] = {};\n    weapons[] = {};\n    requiredAddons[] = {};\n  };\n};\n", true, &[("my_mod", "2.50.0")]),
    ("class CfgPatches {\n  class a { requiredVersion = 1; units[] = {}; weapons[] = {}; requiredAddons[] = {}; };\n  class b { requiredVersion = 2.02; units[] = {}; weapons[] = {}; requiredAddons[] = {}; };\n};\n", true, &[("a", "1.0.0"), ("b", "2.2.0")]),
    ("#include \"beside.hpp\"\nclass CfgPatches { class NAME { requiredVersion = 2.1; units[] = {}; weapons[] = {}; requiredAddons[] = {}; }; };\n", true, &[("from_beside", "2.10.0")]),
    ("class A {\n  x = 1;\n  x = 2;\n};\n", false, &[]),
    ("class A {\n", false, &[]),
    ("#include \"absent.hpp\"\n", false, &[]),
    ("#if 1\n", false, &[]),
];
fn paa_file(kind: u8, sizes: &[(usize, usize)], lzo: u8) -> Vec<u8> {
    let mips: Vec<paa::Mip> = sizes.iter().enumerate().map(|(i, s)| paa::Mip { w: s.0, h: s.1, lzo, salt: i as u32 + 3 }).collect();
    paa::file(kind, &[("AVGC", vec![1, 2, 3, 4])], &mips, &[], 0)
}
fn pbo_file(i: usize) -> Vec<u8> {
    let list: Vec<(String, Vec<u8>)> = PBOS[i].iter().map(|(n, c)| (n.to_string(), c.as_bytes().to_vec())).collect();
    pbo(&[("prefix", "z\\p\\a"), ("version", "1.2")], &list)
}
impl What {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Self::Key(a, b, e, s) => bikey(a, *b, *e, *s),
            Self::Sign(a, b, e, s, v) => bisign(a, *b, *e, *s, *v),
            Self::Paa(k, s, l) => paa_file(*k, s, *l),
            Self::Pbo(i) => pbo_file(*i),
            Self::Config(i) => CONFIGS[*i].0.as_bytes().to_vec(),
        }
    }
    fn ext(&self) -> &'static str {
        match self {
            Self::Key(..) => "bikey",
            Self::Sign(..) => "bisign",
            Self::Paa(..) => "paa",
            Self::Pbo(_) => "pbo",
            Self::Config(_) => "cpp",
        }
    }
    /// The lines that tell what is in the file.
    fn says(&self, name: &str) -> Vec<String> {
        match self {
            Self::Key(a, b, e, s) => vec![format!("Public Key: {name:?}\n  - Authority: {a}\n  - Length: {b}\n  - Exponent: {e}\n  - Modulus: {}\n", rows(&hex(&number(*b, *s)), 13))],
            Self::Sign(a, b, e, s, v) => vec![format!("Signature: {name:?}\n  - Authority: {a}\n  - Version: V{v}\n  - Length: {b}\n  - Exponent: {e}\n  - Modulus: {}\n", rows(&hex(&number(*b, *s)), 13))],
            Self::Paa(k, s, _) => vec![format!("PAA\n  - Format: DXT{k}\nMaps: {}\n", s.len())],
            Self::Pbo(i) => {
                let b = self.bytes();
                let sum: String = b[b.len() - 20..].iter().map(|x| format!("{x:02x}")).collect();
                vec![
                    "Properties\n  - prefix: z\\p\\a\n  - version: 1.2\nChecksum (SHA1)\n".into(),
                    // (of files in another order than the game expects it is that of the expected one)
                    if matches!(*i, 2 | 4) { format!("  - Stored:  {sum}\n  - Actual:  ") } else { format!("  - Stored:  {sum}\n  - Actual:  {sum}\n") },
                    format!("Files\n  - Sorted: {}\n  - Count: {}\n", if matches!(*i, 2 | 4) { "false !!!" } else { "true" }, PBOS[*i].len()),
                ]
            }
            Self::Config(i) => {
                let (_, ok, patches) = CONFIGS[*i];
                if !ok {
                    return vec![];
                }
                let mut t = String::from("Config is valid!\n");
                if patches.is_empty() {
                    t.push_str(" - Contains no CfgPatches\n");
                } else {
                    t.push_str(" - Contains the following CfgPatches:\n");
                    for (n, v) in patches {
                        t.push_str(&format!("    - {n}, requires {v}\n"));
                    }
                }
                vec![t]
            }
        }
    }
    /// The rows of the table.
    fn table(&self) -> Vec<Vec<(&'static str, serde_json::Value)>> {
        match self {
            Self::Paa(k, s, l) => s
                .iter()
                .enumerate()
                .map(|(i, (w, hh))| {
                    let one = paa_file(*k, &[(*w, *hh)], *l).len() - paa_file(*k, &[], *l).len() - 7;
                    // what is stored depends on the content only through its number
                    let size = if *l == 2 { let all = paa_file(*k, &s[..=i], *l).len() - paa_file(*k, &s[..i], *l).len(); all - 7 } else { one };
                    vec![("width", (*w).into()), ("height", (*hh).into()), ("size", size.into()), ("compressed", (*l > 0).into())]
                })
                .collect(),
            Self::Pbo(i) => PBOS[*i].iter().map(|(n, c)| vec![("filename", (*n).into()), ("size", c.len().into()), ("original", 0.into()), ("timestamp", 0.into())]).collect(),
            _ => vec![],
        }
    }
}

fn beside() -> Files {
    proj::files(&[("beside.hpp", "#define NAME from_beside\n"), ("sub/beside.hpp", "#define NAME from_beside\n"), ("png.txt", "keep")])
}
fn says(what: &What, dir: &str, ext: Option<&str>) -> Result<u64, String> {
    let p = Proj::new(&beside());
    let name = format!("{dir}it{}{}", if ext.is_some() { "." } else { "" }, ext.unwrap_or(""));
    let name = if name.starts_with('/') { format!("{}{name}", p.root.display()) } else { name };
    let at = p.root.join(&name);
    std::fs::create_dir_all(at.parent().ok_or("parent")?).map_err(|e| e.to_string())?;
    std::fs::write(&at, what.bytes()).map_err(|e| e.to_string())?;
    proj::chown_all(p.base());
    let before = p.sources();
    let o = p.run(&["utils", "inspect", &name]);
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    ensure!(o.code < 2, "inspect ends with {}; {}", o.code, o.tail());
    // without their extension configs are not known, and other kinds are told as such
    let known = ext == Some(what.ext()) || (ext == Some("hpp") && what.ext() == "cpp") || (what.ext() != "cpp" && !matches!(ext, Some("bikey" | "bisign" | "paa" | "pbo" | "cpp" | "hpp")));
    if known {
        if !matches!(what, What::Config(7 | 8)) {
            ensure_eq!(o.code, 0, "exit code; {}", o.tail());
        }
        for s in what.says(&name) {
            ensure!(out.contains(&s), "inspect does not tell {s:?}, but {out:?}");
        }
        for row in what.table() {
            let cells: Vec<String> = row.iter().map(|(_, v)| v.as_str().map_or_else(|| v.to_string(), str::to_string)).collect();
            ensure!(out.lines().any(|l| { let c: Vec<&str> = l.split('│').map(str::trim).collect(); cells.iter().all(|x| c.contains(&x.as_str())) }), "no row with {cells:?} in {out}");
        }
        if ext != Some(what.ext()) && what.ext() != "cpp" {
            ensure!(o.text().contains(&format!("does not have the .{} extension", what.ext())), "not told what it is: {}", o.tail());
        }
        let invalid = matches!(what, What::Config(i) if !CONFIGS[*i].1);
        ensure!(!invalid || (!out.contains("Config is valid!") && o.text().contains("error")), "a wrong config is accepted: {}", o.tail());
    } else {
        for s in what.says(&name) {
            ensure!(!out.contains(&s) || what.ext() == "cpp", "told as it is while named .{ext:?}");
        }
    }
    // the same by the tool of the kind
    let group = what.ext();
    if matches!(group, "paa" | "pbo") {
        for f in ["json", "pretty-json", "markdown", "ascii"] {
            let o = p.run(&["utils", group, "inspect", &name, "--format", f]);
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            ensure_eq!(o.code, 0, "{group} inspect as {f}; {}", o.tail());
            let want = what.table();
            if f.ends_with("json") {
                let from = out.find("\n[").ok_or("no list")?;
                let to = out.rfind(']').ok_or("no list")?;
                let v: Vec<serde_json::Value> = serde_json::from_str(&out[from..=to]).map_err(|e| format!("{e}: {out}"))?;
                ensure_eq!(v.len(), want.len(), "rows");
                for (g, w) in v.iter().zip(&want) {
                    for (k, x) in w {
                        ensure!(g.get(k) == Some(x), "{k} of {g} should be {x}");
                    }
                }
            } else {
                let sep = if f == "ascii" { '│' } else { '|' };
                for row in want {
                    let cells: Vec<String> = row.iter().map(|(_, v)| v.as_str().map_or_else(|| v.to_string(), str::to_string)).collect();
                    ensure!(out.lines().any(|l| { let c: Vec<&str> = l.split(sep).map(str::trim).collect(); cells.iter().all(|x| c.contains(&x.as_str())) }), "no row with {cells:?} in {out}");
                }
            }
        }
    }
    if group == "cpp" {
        let o = p.run(&["utils", "config", "inspect", &name]);
        ensure!(o.code < 2, "config inspect ends with {}; {}", o.code, o.tail());
        for s in what.says(&name) {
            ensure!(String::from_utf8_lossy(&o.stdout).contains(&s), "config inspect does not tell {s:?}; {}", o.tail());
        }
    }
    ensure!(p.sources() == before, "inspecting changed files");
    Ok(h((o.code, out)))
}

// ---------------------------------------------------------------- damaged files

#[derive(Clone, Copy, Debug)]
enum Damage {
    Cut(usize),
    Set(usize, u8),
    Flip(usize, u8),
    Add(usize),
    Absent,
    Folder,
}
fn apply(b: &[u8], d: Damage) -> Vec<u8> {
    let mut b = b.to_vec();
    match d {
        Damage::Cut(n) => b.truncate(n),
        Damage::Set(i, v) => b[i] = v,
        Damage::Flip(i, v) => b[i] ^= v,
        Damage::Add(n) => b.extend(fill(n, 9)),
        Damage::Absent | Damage::Folder => {}
    }
    b
}
fn damages(n: usize, quick: bool, dense: bool) -> Vec<Damage> {
    let mut v = vec![Damage::Add(1), Damage::Add(100), Damage::Absent, Damage::Folder];
    for i in 0..n {
        v.push(Damage::Cut(i));
        if dense || !quick {
            v.extend([Damage::Set(i, 0), Damage::Set(i, 0xff), Damage::Flip(i, 1), Damage::Flip(i, 0x80)]);
        } else {
            v.push(if i % 2 == 0 { Damage::Set(i, 0xff) } else { Damage::Flip(i, 0x80) });
        }
    }
    v
}
fn damaged(what: &What, list: &[Damage]) -> Result<u64, String> {
    let whole = what.bytes();
    let mut got = vec![];
    let p = Proj::new(&beside());
    for d in list {
        let b = apply(&whole, *d);
        for name in [format!("it.{}", what.ext()), "it".into()] {
            let at = p.root.join(&name);
            match d {
                Damage::Absent => {}
                Damage::Folder => std::fs::create_dir(&at).map_err(|e| e.to_string())?,
                _ => std::fs::write(&at, &b).map_err(|e| e.to_string())?,
            }
            proj::chown_all(p.base());
            let before = p.sources();
            let o = p.run(&["utils", "inspect", &name]);
            ensure!(o.code < 2 && !o.text().contains("panicked"), "{d:?}: inspecting {name} ends with {}; {}", o.code, o.tail());
            if matches!(d, Damage::Absent | Damage::Folder) || (matches!(d, Damage::Cut(_)) && name != "it" && !matches!(what, What::Config(_) | What::Paa(..))) {
                ensure!(o.code == 1 && !o.text().trim().is_empty(), "{d:?}: inspecting {name} does not fail; {}", o.tail());
            }
            got.push(o.code);
            if what.ext() == "paa" {
                let o = p.run(&["utils", "paa", "convert", &name, "out.png"]);
                ensure!(o.code < 2 && !o.text().contains("panicked"), "{d:?}: converting {name} ends with {}; {}", o.code, o.tail());
                let made = p.root.join("out.png");
                if o.code == 1 {
                    ensure!(!made.exists(), "{d:?}: failed, but made a picture");
                }
                let _ = std::fs::remove_file(&made);
                got.push(o.code);
            }
            if what.ext() == "pbo" {
                for args in [["unpack", &name, "un"], ["extract", &name, "a.txt"]] {
                    let mut a = vec!["utils", "pbo"];
                    a.extend(args);
                    let o = p.run(&a);
                    ensure!(o.code < 2 && !o.text().contains("panicked"), "{d:?}: {args:?} ends with {}; {}", o.code, o.tail());
                    got.push(o.code);
                    let _ = std::fs::remove_dir_all(p.root.join("un"));
                }
            }
            ensure!(p.sources() == before, "{d:?}: changed files: {:?}", proj::diff(&p.sources(), &before));
            match d {
                Damage::Absent => {}
                Damage::Folder => std::fs::remove_dir(&at).map_err(|e| e.to_string())?,
                _ => std::fs::remove_file(&at).map_err(|e| e.to_string())?,
            }
        }
    }
    Ok(h(got))
}

// ---------------------------------------------------------------- verify

/// Damaged keys, signatures and archives are never verified, and none crash it.
fn verify(part: usize, list: &[Damage]) -> Result<u64, String> {
    let p = Proj::new(&proj::project(&[proj::Addon { loc: proj::Loc::Addons, name: "a", shape: 0 }], proj::Conf(0)));
    let o = p.run(&proj::Cmd::Release.args());
    ensure_eq!(o.code, 0, "release; {}", o.tail());
    let out = p.sub(".hemttout/release");
    let find = |e: &str| out.keys().find(|n| n.ends_with(e)).map(|n| format!(".hemttout/release/{n}")).ok_or(format!("no {e}"));
    let (pbo, key, sign) = (find(".pbo")?, find(".bikey")?, find(".bisign")?);
    let o = p.run(&["utils", "verify", &pbo, &key]);
    ensure!(o.code == 0 && o.text().contains("Verified!"), "does not verify; {}", o.tail());
    let name = [&pbo, &key, &sign][part];
    let whole = std::fs::read(p.root.join(name)).map_err(|e| e.to_string())?;
    let mut got = vec![];
    for d in list {
        // positions are counted from the end as well
        let n = whole.len();
        let d = match *d {
            Damage::Cut(i) if i < n => Damage::Cut(n - 1 - i),
            Damage::Set(i, v) if i < n => Damage::Set(i, v),
            Damage::Flip(i, v) if i < n => Damage::Flip(i, v),
            _ => continue,
        };
        let b = apply(&whole, d);
        if b == whole {
            continue;
        }
        std::fs::write(p.root.join(name), &b).map_err(|e| e.to_string())?;
        let o = p.run(&["utils", "verify", &pbo, &key]);
        ensure!(o.code < 2 && !o.text().contains("panicked"), "{d:?} of {name}: ends with {}; {}", o.code, o.tail());
        let accepted = o.text().contains("Verified!");
        if part == 0 {
            // what is not signed is told by the checksum
            // (the fields of the header that ends the list are not used)
            let data = n - 21 - proj::read_pbo(&whole)?.files.iter().map(|f| f.1.len()).sum::<usize>();
            let unused = matches!(d, Damage::Set(i, _) | Damage::Flip(i, _) if (data - 20..data).contains(&i) || i == n - 21);
            ensure!(!accepted || unused || o.text().contains("invalid hash"), "{d:?}: the change of the archive is not told");
        } else {
            // the blob header between length and magic is not used
            let head = whole.iter().position(|c| *c == 0).ok_or("authority")? + 1;
            let inert = match d {
                Damage::Set(i, _) | Damage::Flip(i, _) => (head + 4..head + 16).contains(&i) || (i == head + 16 && b[i] & 0xf8 == whole[i] & 0xf8) || (part == 2 && lengths(head, &whole).iter().any(|r| r.contains(&i))),
                _ => false,
            };
            ensure!(!accepted || inert, "{d:?} of {} verifies", if part == 1 { "the key" } else { "the signature" });
        }
        got.push((o.code, accepted));
    }
    Ok(h(got))
}
/// The lengths of the three numbers of a signature.
fn lengths(head: usize, b: &[u8]) -> Vec<std::ops::Range<usize>> {
    let n = u32::from_le_bytes([b[head + 16], b[head + 17], b[head + 18], b[head + 19]]) as usize / 8;
    let a = head + 24 + n;
    let c = a + 4 + n + 4;
    let d = c + 4 + n;
    vec![a..a + 4, c..c + 4, d..d + 4]
}

// ---------------------------------------------------------------- convert

fn convert(kind: u8, sizes: &[(usize, usize)], lzo: u8, out: &str) -> Result<u64, String> {
    let p = Proj::new(&beside());
    std::fs::write(p.root.join("it.paa"), paa_file(kind, sizes, lzo)).map_err(|e| e.to_string())?;
    let o = p.run(&["utils", "paa", "convert", "it.paa", out]);
    ensure!(o.code < 2 && !o.text().contains("panicked"), "ends with {}; {}", o.code, o.tail());
    let at = p.root.join(out);
    if sizes.is_empty() {
        ensure!(!at.exists() || out == "png.txt", "a picture of nothing");
        return Ok(0);
    }
    ensure_eq!(o.code, 0, "exit code; {}", o.tail());
    if out == "png.txt" {
        ensure!(std::fs::read(&at).is_ok_and(|b| b == b"keep"), "an existing file was changed");
        return Ok(1);
    }
    if !out.ends_with(".png") {
        return Ok(2);
    }
    let img = image::open(&at).map_err(|e| format!("no picture: {e}; {}", o.tail()))?.to_rgba8();
    let (w, hh) = sizes[0];
    ensure_eq!((img.width() as usize, img.height() as usize), (w, hh), "size");
    let m = paa::Mip { w, h: hh, lzo, salt: 3 };
    let want = paa::ref_image(kind, w, hh, &paa::block_data(kind, &m));
    ensure!(img.as_raw() == &want, "pixels of the picture");
    // and a second time the picture stays
    let first = std::fs::read(&at).map_err(|e| e.to_string())?;
    std::fs::write(p.root.join("it.paa"), paa_file(kind, &[(4, 4)], 0)).map_err(|e| e.to_string())?;
    let o = p.run(&["utils", "paa", "convert", "it.paa", out]);
    ensure!(o.code < 2, "ends with {}; {}", o.code, o.tail());
    ensure!(std::fs::read(&at).is_ok_and(|b| b == first), "an existing picture was changed");
    Ok(h(want))
}

pub fn x18(ck: &Ck) {
    ck.hang_secs(300);
    let mut whats = vec![];
    for a in ["auth", "a b", "ä", "x.y-z_1"] {
        for (b, s) in [(64, 0), (1024, 0), (1024, 1), (2048, 2), (160, 3), (80, 0), (8, 0)] {
            for e in [65537, 3] {
                whats.push(What::Key(a, b, e, s));
                for v in [2, 3] {
                    whats.push(What::Sign(a, b, e, s, v));
                }
            }
        }
    }
    for k in [1, 3, 5] {
        for l in 0..3 {
            for s in [vec![], vec![(4, 4)], vec![(8, 4)], vec![(16, 8), (8, 4), (4, 4)], vec![(5, 3)], vec![(1, 1)], vec![(64, 64), (32, 32)]] {
                whats.push(What::Paa(k, s, l));
            }
        }
    }
    for i in 0..PBOS.len() {
        whats.push(What::Pbo(i));
    }
    for i in 0..CONFIGS.len() {
        whats.push(What::Config(i));
    }
    let exts: [Option<&str>; 8] = [None, Some("bikey"), Some("bisign"), Some("paa"), Some("pbo"), Some("cpp"), Some("hpp"), Some("txt")];
    let mut cases = vec![];
    for (i, w) in whats.iter().enumerate() {
        for (j, e) in exts.iter().enumerate() {
            for (k, d) in ["", "./", "sub/", "/"].iter().enumerate() {
                if !ck.quick() || (i + j + k) % 4 == 0 || (k == 0 && (*e == Some(w.ext()) || e.is_none())) || (w.ext() == "cpp" && *e == Some("cpp")) {
                    cases.push((w.clone(), *e, *d));
                }
            }
        }
    }
    ck.explore("inspect", "every kind of file x extension x place: what is told is what is in it, in every format, and no file changes", cases, |(w, e, d), o| {
        o.steps(1);
        o.state(says(w, d, *e)?);
        Ok(())
    });
    let mut cases = vec![];
    for w in [
        What::Key("auth", 64, 65537, 0),
        What::Sign("auth", 64, 65537, 0, 3),
        What::Paa(1, vec![(4, 4)], 0),
        What::Paa(5, vec![(8, 4), (4, 4)], 1),
        What::Paa(5, vec![(4, 4)], 2),
        What::Paa(1, vec![(4, 4)], 1),
        What::Pbo(0),
        What::Pbo(1),
        What::Pbo(2),
        What::Config(2),
        What::Config(4),
    ] {
        let all = damages(w.bytes().len(), ck.quick(), !matches!(w, What::Config(_)));
        for c in all.chunks(24) {
            cases.push((w.clone(), c.to_vec()));
        }
    }
    ck.explore("damaged", "every truncation of small files of every kind, every byte changed in four ways, bytes added, no file and a folder: refused or told, never a crash, nothing changed", cases, |(w, d), o| {
        o.steps(d.len() as u64);
        o.state(damaged(w, d)?);
        Ok(())
    });
    let mut cases = vec![];
    for part in 0..3 {
        let all: Vec<Damage> = (0..1400usize).step_by(ck.t(3, 1)).flat_map(|i| [Damage::Cut(i), Damage::Flip(i, 1 << (i % 8)), Damage::Set(i, 0)]).collect();
        for c in all.chunks(ck.t(150, 140)) {
            cases.push((part, c.to_vec()));
        }
    }
    ck.explore("verify", "a signed archive with every truncation and byte change of the archive, key or signature: not verified and never a crash", cases, |(part, d), o| {
        o.steps(d.len() as u64);
        o.state(verify(*part, d)?);
        Ok(())
    });
    let mut cases = vec![];
    for k in [1u8, 3, 5] {
        for l in 0..3u8 {
            for out in ["o.png", "sub/o.png", "png.txt", "o.txt"] {
                let mut sizes = vec![vec![], vec![(16, 8), (8, 4), (4, 4)]];
                for w in 1..=ck.t(9, 17) {
                    for hh in 1..=ck.t(9, 17) {
                        sizes.push(vec![(w, hh)]);
                    }
                }
                if out != "o.png" {
                    sizes.truncate(3);
                }
                for s in sizes {
                    cases.push((k, s, l, out));
                }
            }
        }
    }
    ck.explore("convert", "every kind, compression and size up to the bound: the picture has the pixels of the first mipmap, and existing files stay", cases, |(k, s, l, out), o| {
        o.steps(1);
        o.state(convert(*k, s, *l, out)?);
        Ok(())
    });
    let _ = Node::Dir;
}
