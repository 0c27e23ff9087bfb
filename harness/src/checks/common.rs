//! Versions, prefixes, project configuration, launch presets, lint settings, I/O primitives, expressions.
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Read};

use hemtt_common::arma::{control, dlc::DLC};
use hemtt_common::config::{AddonConfig, LintConfig, PDriveOption, ProjectConfig};
use hemtt_common::io::{compressed_int_len, ReadExt, WriteExt};
use hemtt_common::prefix::Prefix;
use hemtt_common::strip::StripInsensitive;
use hemtt_common::version::Version;
use hemtt_common::BISignVersion;

use crate::fw::*;
use crate::{ensure, ensure_eq};

// ------------------------------------------------------------------ E01 versions
type V = (u32, u32, u32, Option<u32>, Option<String>);
fn show(v: &V) -> String {
    let mut s = format!("{}.{}.{}", v.0, v.1, v.2);
    if let Some(b) = v.3 { s += &format!(".{b}"); }
    if let Some(h) = &v.4 { s += &format!("-{h}"); }
    s
}
/// The documented grammar; None = refused. The bool says whether the text has more parts than the grammar knows.
fn ref_version(s: &str) -> Option<V> {
    let (nums, hash) = match s.find('-') { Some(i) => (&s[..i], Some(&s[i + 1..])), None => (s, None) };
    let mut n = vec![];
    for c in nums.split('.') {
        if c.is_empty() || !c.bytes().all(|b| b.is_ascii_digit()) { return None; }
        n.push(c.parse::<u32>().ok()?);
    }
    if n.len() < 3 { return None; }
    Some((n[0], n[1], n[2], n.get(3).copied(), hash.map(|h| h.split('-').next().unwrap_or("").to_string())))
}
fn same(v: &Version, w: &V) -> R {
    ensure_eq!((v.major(), v.minor(), v.patch(), v.build()), (w.0, w.1, w.2, w.3), "components of {}", show(w));
    ensure_eq!(v.to_string(), show(w), "text of the version");
    Ok(())
}
pub fn version_check(ck: &Ck) {
    ck.assume("version text with more than four numbers or more than one dash is only required not to crash");
    let nums = [0u32, 1, 2, 9, 10, 16, 100, u32::MAX];
    let hashes: [Option<&str>; 4] = [None, Some("d1a631b1"), Some("0"), Some("local")];
    let mut all: Vec<V> = vec![];
    for &a in &nums { for &b in &nums { for &c in &nums { for d in [None, Some(0), Some(1), Some(69), Some(u32::MAX)] { for h in hashes { all.push((a, b, c, d, h.map(str::to_string))); } } } } }
    ck.explore("round-trip", "every combination of component values, build and hash: text, parsing and serialisation agree", all, |v, o| {
        let t = show(v);
        let p = Version::try_from(t.as_str()).map_err(|e| format!("{t}: {e}"))?;
        same(&p, v)?;
        let j = serde_json::to_string(&p).map_err(|e| e.to_string())?;
        ensure_eq!(j, format!("\"{t}\""), "serialised");
        let q: Version = serde_json::from_str(&j).map_err(|e| e.to_string())?;
        ensure!(q == p, "deserialised to {q}");
        if v.4.is_none() { ensure!(Version::new(v.0, v.1, v.2, v.3) == p, "new() differs"); }
        let mut n = Version::new(v.0, v.1, v.2, v.3);
        if let Some(h) = &v.4 { n.set_build(h.clone()); ensure!(n == p, "set_build differs: {n}"); }
        o.state(t); o.steps(4);
        Ok(())
    });
    ck.explore("text", "every string over {0, 1, 12, a, 4294967295, 4294967296, '.', '-'} up to the bound", seqs(&["0", "1", "12", "a", "4294967295", "4294967296", ".", "-", "."], 0, ck.t(6, 7)), |s, o| {
        let t = s.concat();
        let r = Version::try_from(t.as_str());
        let w = ref_version(&t);
        o.steps(1);
        let open = t.split('-').count() > 2 || t.split('-').next().unwrap_or("").split('.').count() > 4;
        if open { return Ok(()); }
        match (&r, &w) {
            (Ok(v), Some(w)) => { o.state(show(w)); same(v, w) }
            (Err(_), None) => Ok(()),
            _ => Err(format!("{t:?} gives {r:?}, expected {w:?}")),
        }
    });
    let comp: Vec<u32> = ck.t(vec![0, 1, 2], vec![0, 1, 2, 10, u32::MAX]);
    let mut vs: Vec<(u32, u32, u32, Option<u32>)> = vec![];
    for &a in &comp { for &b in &comp { for &c in &comp { for d in [None, Some(0), Some(1), Some(7)] { vs.push((a, b, c, d)); } } } }
    let vs2 = vs.clone();
    ck.explore("order", "every pair of versions over the grid: ordered by major, minor, patch, then build with a missing build first", vs, |x, o| {
        let a = Version::new(x.0, x.1, x.2, x.3);
        for y in &vs2 {
            let b = Version::new(y.0, y.1, y.2, y.3);
            ensure_eq!(a.partial_cmp(&b), Some(x.cmp(y)), "order of {a} and {b}");
            ensure_eq!(a == b, x == y, "equality of {a} and {b}");
            o.steps(2);
        }
        o.state(x);
        Ok(())
    });
    ck.explore("numbers", "every number with two decimals up to the bound, as requiredVersion gives them", 0..ck.t(400u32, 5000), |&maj, o| {
        for c in 0..100u32 {
            let f = format!("{maj}.{c:02}").parse::<f32>().unwrap();
            let v = Version::from(f);
            // what the text of the float says
            ensure_eq!((v.major(), v.minor(), v.patch(), v.build()), (maj, c, 0, None), "version of {f}");
            // a third decimal rounds
            let g = format!("{maj}.{c:02}9").parse::<f32>().unwrap();
            let w = Version::from(g);
            let n = maj * 100 + c + 1;
            ensure_eq!((w.major(), w.minor(), w.patch(), w.build()), (n / 100, n % 100, 0, None), "version of {g}");
            o.steps(2);
        }
        o.state(maj);
        Ok(())
    });
    // script_version files
    let keys: [&[&str]; 4] = [&["MAJOR"], &["MINOR"], &["PATCH", "PATCHLVL"], &["BUILD"]];
    let mut cs = vec![];
    for perm in permutations(&[0usize, 1, 2, 3]) { for skip in 0..16u8 { for form in 0..6u8 { for p in 0..2usize { cs.push((perm.clone(), skip, form, p)); } } } }
    let nums2 = [0u32, 3, u32::MAX];
    ck.explore("script-version", "every order and subset of the four macros x six ways of writing the lines x both patch names x values", cs, |(perm, skip, form, p), o| {
        for &v in &nums2 {
            let val = [v, 15, 2, 69];
            let mut s = String::new();
            if *form == 3 { s += "// generated\n#include \"x.hpp\"\n\n"; }
            for &k in perm {
                if skip & (1 << k) != 0 { continue; }
                let name = keys[k][if k == 2 { *p } else { 0 }];
                s += &match form { 0 => format!("#define {name} {}\n", val[k]), 1 => format!("   #define {name} {}  \r\n", val[k]), 2 => format!("#define {name} {} // comment 5\n", val[k]), 3 => format!("#define {name}    {}\n\n#define OTHER 8\n", val[k]), 4 => format!("#define {name} {}//7\n", val[k]), _ => format!("\t#define {name} {}\n// #define {name} 5\n", val[k]) };
            }
            let r = Version::try_from_script_version(&s);
            o.steps(1); o.state((skip, form));
            if skip & 7 != 0 { ensure!(r.is_err(), "a version without all of its components is accepted: {s:?}"); continue; }
            let want: V = (val[0], val[1], val[2], if skip & 8 == 0 { Some(val[3]) } else { None }, None);
            same(&r.map_err(|e| format!("{s:?}: {e}"))?, &want)?;
        }
        Ok(())
    });
    // the version a project ends up with
    let mut cs = vec![];
    for mask in 0..16u8 { for path in 0..3u8 { for file in 0..3u8 { for gh in [None, Some(0u8), Some(1), Some(7), Some(8), Some(39), Some(40), Some(41), Some(255)] { cs.push((mask, path, file, gh)); } } } }
    let repo = scratch().join("repo");
    let hash = std::cell::OnceCell::new();
    let mk = || -> String {
        std::fs::create_dir_all(&repo).unwrap();
        let g = |a: &[&str]| { let o = std::process::Command::new("git").args(["-c", "user.name=x", "-c", "user.email=x@x", "-c", "init.defaultBranch=main"]).args(a).current_dir(&repo).env("HOME", &repo).output().expect("git"); assert!(o.status.success(), "git {a:?}: {}", String::from_utf8_lossy(&o.stderr)); String::from_utf8(o.stdout).unwrap().trim().to_string() };
        g(&["init", "-q"]);
        g(&["commit", "-q", "--allow-empty", "-m", "x"]);
        g(&["rev-parse", "HEAD"])
    };
    let hash = hash.get_or_init(mk).clone();
    let back = std::env::current_dir().unwrap();
    std::env::set_current_dir(&repo).unwrap();
    ck.explore_n("project-version", "every combination of defined components, a path or none, the default or given macro file present or absent, and every git hash length around its limits", 1, cs, |&(mask, path, file, gh), o| {
        let mut t = String::from("name = \"a\"\nprefix = \"p\"\n[version]\n");
        for (i, k) in ["major", "minor", "patch", "build"].iter().enumerate() { if mask & (1 << i) != 0 { t += &format!("{k} = {}\n", i + 4); } }
        if path > 0 { t += &format!("path = '{}'\n", ["", "addons/x/v.hpp", "addons\\x\\v.hpp"][path as usize]); }
        if let Some(g) = gh { t += &format!("git_hash = {g}\n"); }
        let f = scratch().join("version.toml");
        std::fs::write(&f, &t).map_err(|e| e.to_string())?;
        let mem: vfs::VfsPath = vfs::MemoryFS::new().into();
        let put = |p: &str, c: &str| { let x = mem.join(p).unwrap(); x.parent().create_dir_all().unwrap(); std::io::Write::write_all(&mut x.create_file().unwrap(), c.as_bytes()).unwrap(); };
        // 0: no macro file, 1: the one in use, 2: only the other one
        let (default, given) = ("addons/main/script_version.hpp", "addons/x/v.hpp");
        let (uses, other) = if path > 0 { (given, default) } else { (default, given) };
        match file { 1 => { put(uses, "#define MAJOR 1\n#define MINOR 2\n#define PATCH 3\n#define BUILD 9\n"); put(other, "#define MAJOR 7\n#define MINOR 7\n#define PATCH 7\n"); } 2 => put(other, "#define MAJOR 7\n#define MINOR 7\n#define PATCH 7\n"), _ => {} }
        let comps = mask & 7;
        let cfg = ProjectConfig::from_file(&f);
        o.steps(2);
        let bad = (comps != 0 && path > 0) || (comps & 1 == 0 && comps != 0) || (comps != 0 && comps != 7);
        if bad { ensure!(cfg.is_err(), "accepted: {t}"); return Ok(()); }
        let cfg = cfg.map_err(|e| format!("{t}: {e}"))?;
        cfg.version().invalidate();
        let mut want = if comps == 7 { Some((4u32, 5u32, 6u32, if mask & 8 != 0 { Some(7u32) } else { None }, None)) } else if file == 1 { Some((1, 2, 3, Some(9), None)) } else { None };
        if let Some(w) = &mut want { let n = gh.unwrap_or(8) as usize; if n > 0 { w.4 = Some(hash[..n.min(40)].to_string()); } }
        let got = cfg.version().get(&mem);
        o.state((mask, path, file));
        match (got, want) {
            (Ok(v), Some(w)) => {
                same(&v, &w)?;
                // and it stays that way within a run
                let again = cfg.version().get(&mem).map_err(|e| e.to_string())?;
                same(&again, &w)
            }
            (Err(_), None) => Ok(()),
            (g, w) => Err(format!("{t}: {g:?}, expected {w:?}")),
        }
    });
    let _ = std::env::set_current_dir(back);
}

// ------------------------------------------------------------------ E02 prefixes
/// None = refused, Some(None) = either
fn ref_prefix(s: &str) -> Option<Option<String>> {
    let t = s.trim();
    if t.is_empty() || t.contains('/') { return None; }
    let ok = |p: &str| if p.is_empty() || p.starts_with('\\') { None } else { Some(Some(p.to_string())) };
    if !t.contains('=') && t.lines().count() == 1 { return ok(t); }
    for l in t.lines() {
        if let Some((k, v)) = l.split_once('=') {
            if k.trim().eq_ignore_ascii_case("prefix") { return ok(v.trim()); }
        }
    }
    None
}
pub fn prefix_check(ck: &Ck) {
    ck.assume("ASCII prefix files");
    let check = |t: &str, o: &mut Obs| -> R {
        let r = Prefix::new(t);
        o.steps(1);
        match (r, ref_prefix(t)) {
            (Err(_), None) => Ok(()),
            (Ok(p), Some(Some(w))) => {
                o.state(&w);
                ensure_eq!(p.to_string(), w, "prefix of {t:?}");
                let parts: Vec<&str> = w.split('\\').collect();
                ensure_eq!(p.main_prefix(), parts[0], "main prefix of {t:?}");
                ensure_eq!(p.mod_prefix(), parts.get(1).copied(), "mod prefix of {t:?}");
                ensure_eq!(p.as_pathbuf(), parts.iter().collect::<std::path::PathBuf>(), "path of {t:?}");
                ensure_eq!(p.clone().into_inner(), parts.iter().map(|s| s.to_string()).collect::<Vec<_>>(), "parts of {t:?}");
                // written out it is read back as the same, in both forms
                for u in [w.clone(), format!("prefix={w}"), format!("version=1\nPrefix = {w}\nx=y\n"), format!("{w}\r\n")] {
                    if w.contains('=') { break; }
                    let q = Prefix::new(&u).map_err(|e| format!("{u:?} is refused: {e}"))?;
                    ensure!(q == p, "{u:?} gives {q}, expected {w}");
                    o.steps(1);
                }
                Ok(())
            }
            (r, w) => Err(format!("{t:?} gives {r:?}, expected {w:?}")),
        }
    };
    ck.explore("text", "every string over {z, Ab, \\, /, =, prefix, Prefix, space, newline} up to the bound", seqs(&["z", "Ab", "\\", "/", "=", "prefix", "PREFIX", " ", "\n"], 0, ck.t(5, 7)), |s, o| check(&s.concat(), o));
    ck.explore("lines", "every sequence of up to 4 lines of nine kinds, with \\n and \\r\\n", seqs(&["prefix=z\\a\\addons\\b", "prefix = z\\c", "PREFIX=q", "version=1.0", "x", "", "prefix=\\z", "prefix=", "noprefix=k"], 0, ck.t(4, 5)), |s, o| { check(&s.join("\n"), o)?; check(&(s.join("\r\n") + "\r\n"), o) });
}

// ------------------------------------------------------------------ E03 project and addon configuration
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", ")) }
fn set(v: &[String]) -> BTreeSet<String> { v.iter().cloned().collect() }
fn tmp(name: &str) -> std::path::PathBuf {
    // one directory per thread, emptied of the optional files
    let d = scratch().join(format!("cfg-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::create_dir_all(&d).unwrap();
    for f in ["launch.toml", "lints.toml"] { let _ = std::fs::remove_file(d.join(f)); }
    d.join(name)
}
pub fn project(body: &str) -> Result<ProjectConfig, String> {
    let f = tmp("project.toml");
    std::fs::write(&f, format!("name = \"N\"\nprefix = \"p\"\n{body}")).map_err(|e| e.to_string())?;
    ProjectConfig::from_file(&f).map_err(|e| format!("{body}: {e}"))
}
pub fn config_check(ck: &Ck) {
    ck.assume("settings not mentioned keep their documented defaults; unknown keys are outside");
    const PD: [(&str, PDriveOption); 5] = [("disallow", PDriveOption::Disallow), ("ignore", PDriveOption::Ignore), ("require", PDriveOption::Require), ("Require", PDriveOption::Require), ("DISALLOW", PDriveOption::Disallow)];
    let mut cs = vec![];
    for folder in [None, Some("rel"), Some("")] { for sign in [None, Some(true), Some(false)] { for arch in [None, Some(true), Some(false)] { for b in 0..6usize { for c in 0..6usize { cs.push((folder, sign, arch, b, c)); } } } } }
    ck.explore("commands", "every combination of release, build and check settings, each given or left out", cs, |&(folder, sign, arch, b, c), o| {
        let mut t = String::from("[hemtt.release]\n");
        if let Some(f) = folder { t += &format!("folder = \"{f}\"\n"); }
        if let Some(f) = sign { t += &format!("sign = {f}\n"); }
        if let Some(f) = arch { t += &format!("archive = {f}\n"); }
        if b > 0 { t += &format!("[hemtt.build]\npdrive = \"{}\"\n", PD[b - 1].0); }
        if c > 0 { t += &format!("[hemtt.check]\npdrive = \"{}\"\n", PD[c - 1].0); }
        let p = project(&t)?;
        let r = p.hemtt().release();
        ensure_eq!((r.folder(), r.sign(), r.archive()), (folder.unwrap_or("p"), sign.unwrap_or(true), arch.unwrap_or(true)), "release of {t}");
        ensure_eq!(*p.hemtt().build().pdrive(), if b == 0 { PDriveOption::Ignore } else { PD[b - 1].1 }, "build p drive of {t}");
        ensure_eq!(*p.hemtt().check().pdrive(), if c == 0 { PDriveOption::Ignore } else { PD[c - 1].1 }, "check p drive of {t}");
        o.state((folder, sign, arch, b, c)); o.steps(1);
        Ok(())
    });
    ck.explore("pdrive-text", "every p drive setting is serialised to text that is read as the same setting; other text is refused", [PDriveOption::Disallow, PDriveOption::Ignore, PDriveOption::Require], |p, o| {
        let j = serde_json::to_string(p).map_err(|e| e.to_string())?;
        let q: PDriveOption = serde_json::from_str(&j).map_err(|e| format!("{j}: {e}"))?;
        ensure_eq!(q, *p, "{j}");
        for bad in ["", "requir", "on", "true", "required "] { ensure!(project(&format!("[hemtt.build]\npdrive = \"{bad}\"\n")).is_err(), "{bad:?} is accepted"); o.steps(1); }
        o.state(j);
        Ok(())
    });
    const DEF: [&str; 5] = ["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"];
    let inc = ["a.txt", "/a.txt", "mod.cpp", "/LICENSE", "dir/*.h", "/dir/**"];
    ck.explore("files", "every sequence of included files up to the bound x exclusion lists", product(&seqs(&inc, 0, ck.t(3, 4)).collect::<Vec<_>>(), &seqs(&["x.psd", "*.tmp"], 0, 2).collect::<Vec<_>>()), |(i, e), o| {
        let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let p = project(&format!("[files]\ninclude = {}\nexclude = {}\n", list(&own(i)), list(&own(e))))?;
        let want: BTreeSet<String> = i.iter().map(|s| if s.starts_with('/') { s.to_string() } else { format!("/{s}") }).chain(DEF.iter().map(|s| s.to_string())).collect();
        ensure_eq!(set(p.files().include()), want, "included files of {i:?}");
        ensure_eq!(p.files().include().len(), want.len(), "an included file is listed twice");
        ensure_eq!(p.files().exclude(), own(e), "excluded files");
        o.state(want); o.steps(1);
        Ok(())
    });
    let mut cs = vec![];
    for ver in [None, Some(0u32), Some(1), Some(2), Some(3), Some(4)] { for auth in [None, Some("me")] { for main in [None, Some("z")] { for props in 0..3u8 { for dev in 0..3u8 { cs.push((ver, auth, main, props, dev)); } } } } }
    ck.explore("project", "every combination of signing version, authority, main prefix, properties and dev exclusions", cs, |&(ver, auth, main, props, dev), o| {
        let mut t = String::new();
        if let Some(m) = main { t += &format!("mainprefix = \"{m}\"\n"); }
        if props > 0 { t += "[properties]\n"; }
        for i in 0..props { t += &format!("k{i} = \"v{i}\"\n"); }
        t += "[signing]\n";
        if let Some(v) = ver { t += &format!("version = {v}\n"); }
        if let Some(a) = auth { t += &format!("authority = \"{a}\"\n"); }
        let ex: Vec<String> = (0..dev).map(|i| format!("ex{i}")).collect();
        if dev > 0 { t += &format!("[hemtt.dev]\nexclude = {}\n", list(&ex)); }
        let r = project(&t);
        o.steps(1);
        if !matches!(ver, None | Some(2 | 3)) { ensure!(r.is_err(), "accepted {t}"); return Ok(()); }
        let p = r?;
        ensure_eq!(p.signing().version(), if ver == Some(2) { BISignVersion::V2 } else { BISignVersion::V3 }, "signing version");
        ensure_eq!(p.signing().authority().map(String::as_str), auth, "authority");
        ensure_eq!(p.mainprefix().map(String::as_str), main, "main prefix");
        ensure_eq!((p.name().as_str(), p.prefix().as_str()), ("N", "p"), "name and prefix");
        let got: BTreeMap<_, _> = p.properties().iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        ensure_eq!(got, (0..props).map(|i| (format!("k{i}"), format!("v{i}"))).collect::<BTreeMap<_, _>>(), "properties");
        ensure_eq!(p.hemtt().dev().exclude(), ex, "dev exclusions");
        o.state((ver, auth, main, props, dev));
        Ok(())
    });
    // addon.toml
    let ob = [None, Some(true), Some(false)];
    let mut cs = vec![];
    for r in ob { for old in [false, true] { for b in ob { for m in 0..32u8 { cs.push((r, old, b, m)); } } } }
    ck.explore("addon", "every combination of rapify, binarize, file and property settings, including the deprecated spellings: old and new exclusion lists both count", cs, |&(r, old, b, m), o| {
        let mut t = String::new();
        let mut bin = vec![]; let mut files = vec![]; let mut rap = vec![];
        if m & 1 != 0 { t += "no_bin = [\"nb1\", \"nb2\"]\n"; bin.extend(["nb1", "nb2"]); }
        if m & 2 != 0 { t += "exclude = [\"e1\"]\n"; files.push("e1"); }
        t += if old { "[preprocess]\n" } else { "[rapify]\n" };
        if let Some(v) = r { t += &format!("enabled = {v}\n"); }
        if m & 4 != 0 { t += "exclude = [\"r1\"]\n"; rap.push("r1"); }
        t += "[binarize]\n";
        if let Some(v) = b { t += &format!("enabled = {v}\n"); }
        if m & 8 != 0 { t += "exclude = [\"b1\"]\n"; bin.push("b1"); }
        if m & 16 != 0 { t += "[files]\nexclude = [\"f1\"]\n[properties]\nk = \"v\"\n"; files.push("f1"); }
        let f = tmp("addon.toml");
        std::fs::write(&f, &t).map_err(|e| e.to_string())?;
        let a = AddonConfig::from_file(&f).map_err(|e| format!("{t}: {e}"))?;
        let bs = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>();
        ensure_eq!((a.rapify().enabled(), a.binarize().enabled()), (r.unwrap_or(true), b.unwrap_or(true)), "switches of {t}");
        ensure_eq!(set(a.rapify().exclude()), bs(&rap), "rapify exclusions of {t}");
        ensure_eq!(set(a.binarize().exclude()), bs(&bin), "binarize exclusions of {t}");
        ensure_eq!(set(a.files().exclude()), bs(&files), "file exclusions of {t}");
        ensure_eq!(a.properties().get("k").map(String::as_str), (m & 16 != 0).then_some("v"), "property of {t}");
        o.state((r, b, m)); o.steps(1);
        Ok(())
    });
    ck.explore("broken", "every proper prefix of a full project.toml: a configuration or an error, never a crash; an empty prefix and a missing name are refused", {
        let full = "name = \"N\"\nprefix = \"p\"\nmainprefix = \"z\"\n[version]\nmajor = 1\nminor = 2\npatch = 3\ngit_hash = 0\n[files]\ninclude = [\"a\"]\n[hemtt.launch.default]\nworkshop = [\"1\"]\ndlc = [\"ws\"]\n[lints.sqf]\na = false\nb = \"Help\"\n[signing]\nversion = 3\n";
        (0..=full.len()).map(move |i| full[..i].to_string()).chain(["name = \"x\"\nprefix = \"\"\n".to_string(), "prefix = \"a\"\n".to_string(), "name = 1\nprefix = \"a\"\n".to_string()])
    }, |s, o| {
        let f = tmp("project.toml");
        std::fs::write(&f, s).map_err(|e| e.to_string())?;
        let r = ProjectConfig::from_file(&f);
        o.steps(1);
        let need = s.contains("name = \"N\"\n") && s.contains("prefix = \"p\"");
        if !need { ensure!(r.is_err(), "accepted {s:?}"); }
        o.state(r.is_ok());
        Ok(())
    });
}

// ------------------------------------------------------------------ E04 launch presets
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct L { ext: Option<String>, lists: [Vec<String>; 5], mission: Option<String>, exe: Option<String>, flags: [Option<bool>; 3], inst: Option<u8> }
const LISTS: [&str; 5] = ["workshop", "dlc", "presets", "optionals", "parameters"];
const FLAGS: [&str; 3] = ["binarize", "file_patching", "rapify"];
impl L {
    fn toml(&self) -> String {
        let mut t = String::new();
        if let Some(e) = &self.ext { t += &format!("extends = \"{e}\"\n"); }
        for (k, v) in LISTS.iter().zip(&self.lists) { if !v.is_empty() { t += &format!("{k} = {}\n", list(v)); } }
        if let Some(e) = &self.mission { t += &format!("mission = \"{e}\"\n"); }
        if let Some(e) = &self.exe { t += &format!("executable = \"{e}\"\n"); }
        for (k, v) in FLAGS.iter().zip(&self.flags) { if let Some(v) = v { t += &format!("{k} = {v}\n"); } }
        if let Some(v) = self.inst { t += &format!("instances = {v}\n"); }
        t
    }
    /// settings of the parent, overridden by these
    fn over(&self, parent: &L) -> L {
        let mut r = parent.clone();
        for i in 0..5 { r.lists[i].extend(self.lists[i].clone()); r.lists[i].sort(); r.lists[i].dedup(); }
        if self.mission.is_some() { r.mission.clone_from(&self.mission); }
        if self.exe.is_some() { r.exe.clone_from(&self.exe); }
        for i in 0..3 { if self.flags[i].is_some() { r.flags[i] = self.flags[i]; } }
        if self.inst.is_some() { r.inst = self.inst; }
        r
    }
}
fn resolve(all: &BTreeMap<String, L>, k: &str, seen: &mut Vec<String>) -> Option<L> {
    if seen.iter().any(|s| s == k) { return None; }
    seen.push(k.to_string());
    let l = all.get(k)?;
    match &l.ext { None => Some(l.over(&L::default())), Some(e) => Some(l.over(&resolve(all, e, seen)?)) }
}
fn launch_matches(g: &hemtt_common::config::LaunchOptions, w: &L) -> R {
    let dl: Vec<String> = g.dlc().iter().map(|d| d.to_mod().to_string()).collect();
    let got: [Vec<String>; 5] = [g.workshop().to_vec(), dl, g.presets().to_vec(), g.optionals().to_vec(), g.parameters().to_vec()];
    for i in 0..5 {
        ensure_eq!(set(&got[i]), set(&w.lists[i]), "{}", LISTS[i]);
        ensure_eq!(got[i].len(), w.lists[i].len(), "number of {}", LISTS[i]);
    }
    ensure_eq!(g.mission(), w.mission.as_ref(), "mission");
    let exe = w.exe.clone().unwrap_or_else(|| "arma3_x64".into());
    let exe = if exe.to_lowercase().ends_with(".exe") { exe } else { format!("{exe}.exe") };
    ensure_eq!(g.executable(), exe, "executable");
    ensure_eq!((g.binarize(), g.file_patching(), g.rapify()), (w.flags[0].unwrap_or(false), w.flags[1].unwrap_or(true), w.flags[2].unwrap_or(true)), "switches");
    ensure_eq!(g.instances(), w.inst.unwrap_or(1), "instances");
    Ok(())
}
fn sample(i: usize, style: usize) -> L {
    let s = |x: &str| x.to_string();
    match (style + i) % 6 {
        0 => L { lists: [vec![s("1"), format!("{i}2")], vec![s("ws")], vec![], vec![s("opt")], vec![s("-x")]], mission: Some(format!("m{i}")), flags: [Some(i % 2 == 0), None, Some(false)], ..L::default() },
        1 => L { lists: [vec![s("1")], vec![s("contact"), s("ws")], vec![format!("p{i}")], vec![], vec![s("-x"), format!("-y{i}")]], exe: Some(format!("e{i}")), flags: [None, Some(i % 2 == 1), None], inst: Some(i as u8 + 2), ..L::default() },
        2 => L::default(),
        3 => L { exe: Some(s("Own.EXE")), flags: [Some(false), Some(false), Some(true)], inst: Some(1), ..L::default() },
        4 => L { mission: Some(s("x")), flags: [Some(true), Some(true), None], ..L::default() },
        _ => L { lists: [vec![], vec![s("spe"), s("ef")], vec![s("p")], vec![s("o1"), s("o2")], vec![]], inst: Some(0), ..L::default() },
    }
}
pub fn launch_check(ck: &Ck) {
    ck.assume("the order of entries inside a list setting is open; each entry is present once");
    ck.hang_secs(20);
    let k = ck.t(4usize, 5);
    // extends of each config: none, one of the k, or missing
    let mut cs = vec![];
    for n in 1..=k { for e in seqs(&(0..n + 2).collect::<Vec<_>>(), n, n) { if n < k || ck.quick() || e.iter().filter(|&&x| x == n + 1).count() <= 1 { for style in 0..ck.t(3usize, 6) { for file in [false, true] { cs.push((e.clone(), style, file)); } } } } }
    ck.explore("extends", "every inheritance graph over up to k presets (each extends nothing, any preset or a missing one) x contents x in project.toml or launch.toml: every preset is what its chain says, a circle or a missing parent is an error", cs, |(ext, style, file), o| {
        let n = ext.len();
        let names: Vec<String> = (0..n).map(|i| format!("cfg{i}")).collect();
        let all: BTreeMap<String, L> = (0..n).map(|i| { let mut l = sample(i, *style); l.ext = match ext[i] { x if x < n => Some(names[x].clone()), x if x == n => None, _ => Some("gone".into()) }; (names[i].clone(), l) }).collect();
        let mut t = String::new();
        for (k, l) in &all { t += &format!("[{}{k}]\n{}", if *file { "" } else { "hemtt.launch." }, l.toml()); }
        let f = tmp("project.toml");
        let head = "name = \"N\"\nprefix = \"p\"\n";
        if *file { std::fs::write(&f, head).unwrap(); std::fs::write(f.with_file_name("launch.toml"), &t).unwrap(); } else { std::fs::write(&f, format!("{head}{t}")).unwrap(); }
        let r = ProjectConfig::from_file(&f);
        let want: Option<BTreeMap<String, L>> = names.iter().map(|k| resolve(&all, k, &mut vec![]).map(|l| (k.clone(), l))).collect();
        o.steps(n as u64);
        let Some(want) = want else { ensure!(r.is_err(), "accepted: {t}"); return Ok(()); };
        let p = r.map_err(|e| format!("{t}: {e}"))?;
        ensure_eq!(p.hemtt().launch().len(), n, "number of presets");
        for (k, w) in &want { let g = p.hemtt().launch().get(k).ok_or_else(|| format!("{k} is gone"))?; launch_matches(g, w).map_err(|e| format!("{k}: {e}\n{t}"))?; }
        o.state(format!("{want:?}"));
        Ok(())
    });
    let n = 6usize;
    ck.explore("overlay", "every sequence of presets laid over one another as on the command line: the last setting given wins and lists are joined", seqs(&(0..n).collect::<Vec<_>>(), 1, ck.t(3, 4)), |s, o| {
        let mut t = String::new();
        for i in 0..n { t += &format!("[hemtt.launch.c{i}]\n{}", sample(i, 0).toml()); }
        let p = project(&t)?;
        let get = |i: usize| p.hemtt().launch()[&format!("c{i}")].clone();
        let mut g = get(s[0]);
        let mut w = sample(s[0], 0).over(&L::default());
        for &i in &s[1..] { g = g.overlay(get(i)); w = sample(i, 0).over(&w); o.steps(1); }
        let dl: Vec<String> = g.dlc().iter().map(|d| d.to_mod().to_string()).collect();
        let got: [Vec<String>; 5] = [g.workshop().to_vec(), dl, g.presets().to_vec(), g.optionals().to_vec(), g.parameters().to_vec()];
        for i in 0..5 { ensure_eq!(set(&got[i]), set(&w.lists[i]), "{} of {s:?}", LISTS[i]); }
        ensure_eq!(g.mission(), w.mission.as_ref(), "mission of {s:?}");
        ensure_eq!((g.binarize(), g.file_patching(), g.rapify(), g.instances()), (w.flags[0].unwrap_or(false), w.flags[1].unwrap_or(true), w.flags[2].unwrap_or(true), w.inst.unwrap_or(1)), "switches of {s:?}");
        let exe = w.exe.clone().unwrap_or_else(|| "arma3_x64".into());
        ensure_eq!(g.executable().to_lowercase().trim_end_matches(".exe"), exe.to_lowercase().trim_end_matches(".exe"), "executable of {s:?}");
        o.state(format!("{w:?}"));
        Ok(())
    });
    ck.explore("conflict", "launch presets and lint settings may be in project.toml or in their own file, not both, whichever sections are used", product(&subsets(&["[hemtt.launch.a]\nmission = \"m\"\n", "[lints.sqf]\na = false\n", "[lints.config]\nb = true\n", "[lints.stringtables]\nc = \"Help\"\n"], 0, 4), &[0u8, 1, 2, 3]), |(s, files), o| {
        let f = tmp("project.toml");
        std::fs::write(&f, format!("name = \"N\"\nprefix = \"p\"\n{}", s.concat())).unwrap();
        if files & 1 != 0 { std::fs::write(f.with_file_name("launch.toml"), "[fromfile]\nmission = \"x\"\n").unwrap(); }
        if files & 2 != 0 { std::fs::write(f.with_file_name("lints.toml"), "[config]\nfromfile = false\n").unwrap(); }
        let r = ProjectConfig::from_file(&f);
        let hl = s.iter().any(|x| x.contains("launch")); let hs = s.iter().any(|x| x.contains("lints"));
        o.steps(1); o.state((hl, hs, files));
        if (hl && files & 1 != 0) || (hs && files & 2 != 0) { ensure!(r.is_err(), "settings in both places are accepted"); return Ok(()); }
        let p = r.map_err(|e| e.to_string())?;
        ensure_eq!(p.hemtt().launch().contains_key("fromfile"), files & 1 != 0, "preset of launch.toml");
        ensure_eq!(p.hemtt().launch().contains_key("a"), hl, "preset of project.toml");
        ensure_eq!(p.lints().config().contains_key("fromfile"), files & 2 != 0, "lint of lints.toml");
        ensure_eq!(p.lints().sqf().contains_key("a"), s.iter().any(|x| x.contains("sqf")), "lint of project.toml");
        ensure_eq!(p.lints().stringtables().contains_key("c"), s.iter().any(|x| x.contains("stringtables")), "stringtable lint of project.toml");
        Ok(())
    });
}

// ------------------------------------------------------------------ E05 lint settings
pub fn lint_check(ck: &Ck) {
    use codespan_severity::{sev, SEV};
    let en = [None, Some(true), Some(false)];
    let mut forms: Vec<(String, Option<bool>, Option<usize>, Vec<(&str, i64)>)> = vec![("true".into(), Some(true), None, vec![]), ("false".into(), Some(false), None, vec![])];
    for (i, s) in SEV.iter().enumerate() { forms.push((format!("\"{s}\""), None, Some(i), vec![])); }
    for e in en { for s in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] { for op in [vec![], vec![("k", 1i64)], vec![("k", 2), ("n", 3)]] {
        let mut t = vec![];
        if let Some(e) = e { t.push(format!("enabled = {e}")); }
        if let Some(s) = s { t.push(format!("severity = \"{}\"", SEV[s])); }
        if !op.is_empty() { t.push(format!("options = {{ {} }}", op.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", "))); }
        forms.push((format!("{{ {} }}", t.join(", ")), e, s, op));
    } } }
    let idx: Vec<usize> = (0..forms.len()).collect();
    ck.explore("override", "every way of writing a lint setting x group x every default (severity, enabled, options), given in project.toml or lints.toml: exactly the settings that were given change", product(&idx, &[0usize, 1, 2]), |&(i, grp), o| {
        let (t, e, s, op) = &forms[i];
        let g = ["config", "sqf", "stringtables"][grp];
        for own in [false, true] {
            let p = if own {
                let f = tmp("project.toml");
                std::fs::write(&f, "name = \"N\"\nprefix = \"p\"\n").unwrap();
                std::fs::write(f.with_file_name("lints.toml"), format!("[{g}]\nx = {t}\n")).unwrap();
                ProjectConfig::from_file(&f).map_err(|e| format!("{t}: {e}"))?
            } else { project(&format!("[lints.{g}]\nx = {t}\n"))? };
            let groups = [p.lints().config(), p.lints().sqf(), p.lints().stringtables()];
            for (k, m) in groups.iter().enumerate() { ensure_eq!(m.len(), usize::from(k == grp), "settings in group {k} for {t}"); }
            let ov = groups[grp].get("x").ok_or("the setting is gone")?;
            let mut defaults = vec![LintConfig::error(), LintConfig::warning(), LintConfig::help()];
            for d in 0..SEV.len() { for en in [true, false] { for oo in 0..3u8 {
                let m = [vec![], vec![("k", 9i64)], vec![("z", 8)]][oo as usize].iter().map(|(k, v)| (k.to_string(), toml::Value::Integer(*v))).collect();
                defaults.push(LintConfig::new(sev(d), m).with_enabled(en));
            } } }
            for d in defaults {
                let r = ov.apply(d.clone());
                ensure_eq!(r.enabled(), e.unwrap_or(d.enabled()), "enabled of {t}");
                ensure_eq!(r.severity(), s.map_or(d.severity(), sev), "severity of {t}");
                for k in ["k", "n", "z"] {
                    let w = op.iter().find(|x| x.0 == k).map(|x| toml::Value::Integer(x.1)).or_else(|| d.option(k).cloned());
                    ensure_eq!(r.option(k).cloned(), w, "option {k} of {t}");
                }
                o.steps(1);
            }
            o.state((t, own));
        }
        Ok(())
    });
    ck.explore("broken", "lint settings of the wrong type are refused", ["1", "\"Loud\"", "[]", "{ severity = 3 }", "{ enabled = \"yes\" }", "\"\""], |t, o| {
        for g in ["config", "sqf", "stringtables"] { ensure!(project(&format!("[lints.{g}]\nx = {t}\n")).is_err(), "{t} is accepted"); o.steps(1); }
        o.state(t);
        Ok(())
    });
}
mod codespan_severity {
    pub const SEV: [&str; 5] = ["Bug", "Error", "Warning", "Note", "Help"];
    pub fn sev(i: usize) -> codespan_reporting::diagnostic::Severity { use codespan_reporting::diagnostic::Severity::*; [Bug, Error, Warning, Note, Help][i] }
}

// ------------------------------------------------------------------ E06 I/O primitives
fn ref_cint(mut x: u32) -> Vec<u8> { let mut v = vec![]; loop { let b = (x & 0x7f) as u8; x >>= 7; if x == 0 { v.push(b); return v; } v.push(b | 0x80); } }
pub fn io_check(ck: &Ck) {
    let mut xs: Vec<u64> = vec![];
    for p in 0..=32u32 { let b = 1u64 << p; let r = ck.t(200u64, 3000); for d in 0..=2 * r { let x = (b + d).wrapping_sub(r); if x <= u64::from(u32::MAX) { xs.push(x); } } }
    xs.sort_unstable(); xs.dedup();
    let mut blocks: Vec<Vec<u32>> = xs.chunks(64).map(|c| c.iter().map(|x| *x as u32).collect()).collect();
    blocks.extend((0..ck.t(0x20_0000u32, 0x400_0000) / 0x4000).map(|b| (b * 0x4000..(b + 1) * 0x4000).collect()));
    ck.explore("compressed-ints", "every value up to the bound and around every power of two: written as the format says, its length predicted, read back", blocks.into_iter(), |b, o| {
        for &x in b {
            let mut v = vec![];
            let n = v.write_compressed_int(x).map_err(|e| e.to_string())?;
            ensure!(v == ref_cint(x), "{x} is written as {v:?}");
            ensure_eq!((n, compressed_int_len(x)), (v.len(), v.len()), "length of {x}");
            v.push(0x55);
            let mut c = Cursor::new(&v);
            ensure_eq!(c.read_compressed_int().map_err(|e| e.to_string())?, x, "read back");
            ensure_eq!(c.position() as usize, n, "bytes read of {x}");
        }
        o.state((b[0], b.len())); o.steps(b.len() as u64);
        Ok(())
    });
    ck.explore("compressed-bytes", "every byte string over the significant values up to 6 bytes: the value the format prescribes, an error when it is cut short or does not fit", seqs(&[0u8, 1, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0xff], 0, ck.t(5, 6)), |s, o| {
        let mut want = Err(());
        let mut x = 0u64;
        for (i, b) in s.iter().enumerate() { if i > 4 { break; } x |= u64::from(b & 0x7f) << (7 * i); if b < &0x80 { want = if x <= u64::from(u32::MAX) { Ok((x as u32, i + 1)) } else { Err(()) }; break; } }
        let mut c = Cursor::new(s);
        let r = c.read_compressed_int();
        o.steps(1);
        match (r, want) {
            (Ok(x), Ok((w, n))) => { ensure_eq!((x, c.position() as usize), (w, n), "{s:?}"); o.state(w); Ok(()) }
            (Err(_), Err(())) => Ok(()),
            (r, w) => Err(format!("{s:?}: {r:?}, expected {w:?}")),
        }
    });
    ck.explore("cstrings", "every string over the alphabet up to the bound: written with its terminator, read back, nothing behind it consumed", seqs(&["a", "Z", " ", "\\", "é", "\n"], 0, ck.t(6, 7)), |s, o| {
        let t = s.concat();
        let mut v = vec![];
        v.write_cstring(&t).map_err(|e| e.to_string())?;
        ensure_eq!(v, [t.as_bytes(), &[0]].concat(), "written");
        v.extend(b"rest");
        let mut c = super::pbo::Chunky::new(v, 1);
        ensure_eq!(c.read_cstring().map_err(|e| e.to_string())?, t, "read");
        let mut rest = vec![]; c.read_to_end(&mut rest).map_err(|e| e.to_string())?;
        ensure_eq!(rest, b"rest".to_vec(), "bytes behind the string");
        o.state(t); o.steps(2);
        Ok(())
    });
    let top = ck.t(20, 24);
    let lens: Vec<usize> = (4..=top).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
    ck.explore("long-cstrings", "strings of every length around the powers of two: written with their terminator, read back in pieces, nothing behind it consumed", lens, |&n, o| {
        let t: String = (0..n).map(|i| char::from(b'a' + (i % 23) as u8)).collect();
        let mut v = vec![];
        v.write_cstring(&t).map_err(|e| e.to_string())?;
        ensure!(v.len() == n + 1 && v[..n] == *t.as_bytes() && v[n] == 0, "written");
        v.extend(b"rest");
        for piece in [n / 2 + 1, n + 5] {
            let mut c = super::pbo::Chunky::new(v.clone(), piece);
            let r = c.read_cstring().map_err(|e| e.to_string())?;
            ensure!(r == t, "{} of {n} bytes read", r.len());
            let mut rest = vec![]; c.read_to_end(&mut rest).map_err(|e| e.to_string())?;
            ensure!(rest == b"rest", "{} bytes behind the string", rest.len());
        }
        o.state(n); o.steps(3);
        Ok(())
    });
}

// ------------------------------------------------------------------ E07 expressions, text helpers
/// recursive descent: None = not an expression, Some(None) = left open
struct P<'a> { t: Vec<&'a str>, i: usize, open: bool }
impl P<'_> {
    fn sum(&mut self) -> Option<f64> { let mut a = self.mul()?; while let Some(o) = self.op(&["+", "-"]) { let b = self.mul()?; a = if o == "+" { a + b } else { a - b }; } Some(a) }
    fn mul(&mut self) -> Option<f64> { let mut a = self.pow()?; while let Some(o) = self.op(&["*", "/", "%"]) { let b = self.pow()?; a = match o { "*" => a * b, "/" => a / b, _ => a % b }; } Some(a) }
    fn pow(&mut self) -> Option<f64> { let a = self.atom()?; if self.op(&["^"]).is_some() { let b = self.pow()?; return Some(a.powf(b)); } Some(a) }
    fn op(&mut self, s: &[&'static str]) -> Option<&'static str> { let t = *self.t.get(self.i)?; let r = s.iter().find(|x| **x == t)?; self.i += 1; Some(r) }
    fn atom(&mut self) -> Option<f64> {
        let t = *self.t.get(self.i)?; self.i += 1;
        match t {
            "(" => { let v = self.sum()?; if self.t.get(self.i) != Some(&")") { return None; } self.i += 1; Some(v) }
            "-" => { // sign of the literal that follows directly; a sign before anything else is left open
                let n = *self.t.get(self.i)?;
                if let Ok(v) = n.parse::<f64>() { self.i += 1; return Some(-v); }
                self.open = true; let v = self.atom()?; Some(-v)
            }
            _ => t.parse().ok(),
        }
    }
}
pub fn math_check(ck: &Ck) {
    ck.assume("a sign before a parenthesis or another sign may be refused instead of evaluated; a sign binds tighter than any operator");
    let al = ["1", "2", "0.5", "3", "+", "-", "*", "/", "%", "^", "(", ")"];
    let check = |t: &[&str], sep: &str, o: &mut Obs| -> R {
        // adjoining numbers would merge into one literal: keep a space between them
        let mut s = String::new();
        for (i, x) in t.iter().enumerate() { let num = |y: &str| y.parse::<f64>().is_ok(); if i > 0 && (sep == " " || (num(x) && num(t[i - 1]))) && !(i > 0 && t[i - 1] == "-" && (i == 1 || !num(t[i - 2]) && t[i - 2] != ")")) { s.push(' '); } s.push_str(x); }
        let mut p = P { t: t.to_vec(), i: 0, open: false };
        let w = p.sum().filter(|_| p.i == t.len());
        let r = hemtt_common::math::eval(&s);
        o.steps(1);
        let ok = match (r, w) { (None, None) => true, (Some(a), Some(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b, (None, Some(_)) => p.open, (Some(_), None) => false };
        ensure!(ok, "{s:?} gives {r:?}, expected {w:?}");
        if let Some(r) = r { o.state(r.to_bits()); }
        Ok(())
    };
    let n = ck.t(5usize, 6);
    ck.explore("tokens", "every sequence of tokens up to the bound: the value by precedence and associativity, or refused when it is not an expression", seqs(&al, 0, n - 1), |s, o| {
        if s.is_empty() { check(&[], "", o)?; }
        let mut t = s.clone();
        check(&t, "", o)?;
        for l in al { t.push(l); check(&t, "", o)?; check(&t, " ", o)?; t.pop(); }
        Ok(())
    });
    // well-formed chains of binary operators with every parenthesisation of one range
    ck.explore("chains", "every chain of up to 4-5 operators over distinct operands x one parenthesised range x signs", seqs(&["+", "-", "*", "/", "%", "^"], 1, ck.t(4, 5)), |ops, o| {
        let nums = ["7", "2", "3", "5", "4", "9"];
        let k = ops.len() + 1;
        for a in 0..k { for b in a..k { for neg in 0..=k {
            let mut t = vec![];
            for i in 0..k { if i > 0 { t.push(ops[i - 1]); } if i == a && b > a { t.push("("); } if i == neg { t.push("-"); } t.push(nums[i]); if i == b && b > a { t.push(")"); } }
            check(&t, "", o)?;
        } } }
        Ok(())
    });
    ck.explore("invalid-text", "every string over significant characters up to the bound: a number or nothing, never a crash", seqs(&["1", ".", "-", "e", " ", "(", ")", "+", "é", "\t", "^"], 0, ck.t(5, 6)), |s, o| {
        let t = s.concat();
        let r = hemtt_common::math::eval(&t);
        o.steps(1); o.state(r.map(f64::to_bits));
        if t.contains('e') || t.contains('é') { ensure!(r.is_none(), "{t:?} gives {r:?}"); }
        if !t.contains('1') { ensure!(r.is_none(), "{t:?} gives {r:?}"); }
        Ok(())
    });
    ck.explore("strip-prefix", "every pair of strings over {a, A, b, é, É, \\} up to the bound", seqs(&["a", "A", "b", "é", "É", "\\"], 0, ck.t(4, 5)), |s, o| {
        let t = s.concat();
        for p in seqs(&["a", "A", "b", "é", "É", "\\"], 0, 3) {
            let p = p.concat();
            let want = (0..=t.len()).find(|&i| t.is_char_boundary(i) && i == p.len() && t[..i].to_ascii_lowercase() == p.to_ascii_lowercase()).map(|i| &t[i..]);
            ensure_eq!(t.as_str().strip_prefix_insensitive(&p), want, "{t:?} without {p:?}");
            ensure_eq!(t.strip_prefix_insensitive(&p), want, "{t:?} without {p:?} (String)");
            o.steps(2);
        }
        o.state(t);
        Ok(())
    });
    let words = ["abc", "ABC", "abd", "bc", "xyz", "abcdef", "", "a"];
    ck.explore("similar", "every search word over the alphabet x every set of candidates: the closest first, none further than three edits, at most three", seqs(&["a", "b", "C", "x"], 0, 4), |s, o| {
        let t = s.concat();
        for h in subsets(&words, 0, ck.t(5, 8)) {
            let r = hemtt_common::similar_values(&t, &h);
            let d = |x: &str| lev(&x.to_lowercase(), &t.to_lowercase());
            let mut w: Vec<usize> = h.iter().map(|x| d(x)).filter(|x| *x <= 3).collect();
            w.sort_unstable(); w.truncate(3);
            ensure_eq!(r.iter().map(|x| d(x)).collect::<Vec<_>>(), w, "distances of {r:?} for {t:?} among {h:?}");
            let u: BTreeSet<_> = r.iter().collect();
            ensure!(u.len() == r.len() && r.iter().all(|x| h.contains(x)), "{r:?} among {h:?}");
            o.steps(1); o.state(&r);
        }
        Ok(())
    });
    let dlcs = [("contact", "1021790", "Contact"), ("gm", "1042220", "Creator DLC: Global Mobilization - Cold War Germany"), ("vn", "1227700", "Creator DLC: S.O.G. Prairie Fire"), ("csla", "1294440", "Creator DLC: CSLA Iron Curtain"), ("ws", "1681170", "Creator DLC: Western Sahara"), ("spe", "1175380", "Creator DLC: Spearhead 1944"), ("rf", "2647760", "Creator DLC: Reaction Forces"), ("ef", "2647830", "Creator DLC: Expeditionary Forces")];
    ck.explore("dlc", "every DLC by folder, app id and full name, in any case; no two share one; one-letter changes are refused or unambiguous", dlcs, |&(m, id, name), o| {
        for s in [m.to_string(), m.to_uppercase(), id.to_string(), name.to_string(), name.to_uppercase(), name.trim_start_matches("Creator DLC: ").to_string()] {
            let d = DLC::try_from(s.clone()).map_err(|e| format!("{s}: {e}"))?;
            ensure_eq!((d.to_mod(), d.to_appid(), d.to_string().as_str()), (m, id, name), "{s}");
            let j = serde_json::to_string(&d).map_err(|e| e.to_string())?;
            ensure_eq!(serde_json::from_str::<DLC>(&j).map_err(|e| e.to_string())?, d, "{j}");
            o.steps(2);
        }
        for i in 0..id.len() { for c in b'0'..=b'9' { let mut b = id.as_bytes().to_vec(); if b[i] == c { continue; } b[i] = c; let s = String::from_utf8(b).unwrap(); let r = DLC::try_from(s.clone()); ensure_eq!(r.as_ref().ok().map(|d| d.to_appid().to_string()), dlcs.iter().find(|x| x.1 == s).map(|x| x.1.to_string()), "{s}"); o.steps(1); } }
        o.state(m);
        Ok(())
    });
    // which files each signature version covers
    let v2 = ["fxy", "jpg", "lip", "ogg", "p3d", "paa", "pac", "png", "rtm", "rvmat", "tga", "wrp", "wss"];
    let v3 = ["bikb", "cfg", "ext", "fsm", "h", "hpp", "inc", "sqf", "sqfc", "sqm", "sqs"];
    ck.explore("sign-version", "every file extension of up to 2 letters (3 thorough) and every known one, plain, nested and dotted: hashed by exactly the version that covers it", (b'a'..=b'z').collect::<Vec<_>>(), |&c, o| {
        let mut names: Vec<String> = vec![(c as char).to_string()];
        for d in b'a'..=b'z' { names.push(format!("{}{}", c as char, d as char)); if ck.t(false, true) { for e in b'0'..=b'z' { if e.is_ascii_alphanumeric() { names.push(format!("{}{}{}", c as char, d as char, e as char)); } } } }
        names.extend(v2.iter().chain(&v3).filter(|s| s.starts_with(c as char)).map(|s| s.to_string()));
        for e in names {
            for n in [format!("a.{e}"), format!("dir/b.x.{e}"), e.clone(), format!("q.{e}x.{e}")] {
                let dotted = n.contains('.');
                ensure_eq!(BISignVersion::V2.should_hash_file(&n), dotted && v2.contains(&e.as_str()), "V2 {n}");
                ensure_eq!(BISignVersion::V3.should_hash_file(&n), dotted && v3.contains(&e.as_str()), "V3 {n}");
                o.steps(2);
            }
        }
        o.state(c);
        Ok(())
    });
    ck.explore("control-messages", "every message of both directions with every text of the alphabet survives its encoding", seqs(&["a", "\"", "\\", "\n", "é", "\u{1f600}", "\0"], 0, ck.t(3, 5)), |s, o| {
        let t = s.concat();
        {
            use control::{fromarma as f, toarma as m};
            let to = [m::Message::Control(m::Control::Exit), m::Message::Photoshoot(m::Photoshoot::Weapon(t.clone())), m::Message::Photoshoot(m::Photoshoot::Preview(t.clone())), m::Message::Photoshoot(m::Photoshoot::PreviewRun), m::Message::Photoshoot(m::Photoshoot::Done)];
            let mut seen = BTreeSet::new();
            for x in &to { let j = serde_json::to_string(x).map_err(|e| e.to_string())?; let y: m::Message = serde_json::from_str(&j).map_err(|e| format!("{j}: {e}"))?; ensure_eq!(format!("{y:?}"), format!("{x:?}"), "{j}"); ensure!(seen.insert(j), "two messages have the same text"); o.steps(1); }
            let from = [f::Message::Control(f::Control::Mission(t.clone())), f::Message::Photoshoot(f::Photoshoot::Ready), f::Message::Photoshoot(f::Photoshoot::Weapon(t.clone())), f::Message::Photoshoot(f::Photoshoot::Previews), f::Message::Log(f::Level::Trace, t.clone()), f::Message::Log(f::Level::Debug, t.clone()), f::Message::Log(f::Level::Info, t.clone()), f::Message::Log(f::Level::Warn, t.clone()), f::Message::Log(f::Level::Error, t.clone())];
            for x in &from { let j = serde_json::to_string(x).map_err(|e| e.to_string())?; let y: f::Message = serde_json::from_str(&j).map_err(|e| format!("{j}: {e}"))?; ensure_eq!(format!("{y:?}"), format!("{x:?}"), "{j}"); ensure!(!j.contains('\n'), "{j:?} spans lines"); o.steps(1); }
        }
        o.state(t);
        Ok(())
    });
}
fn lev(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut m = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() { for j in 0..=b.len() { m[i][j] = if i == 0 { j } else if j == 0 { i } else { (m[i - 1][j] + 1).min(m[i][j - 1] + 1).min(m[i - 1][j - 1] + usize::from(a[i - 1] != b[j - 1])) }; } }
    m[a.len()][b.len()]
}
