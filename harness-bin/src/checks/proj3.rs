//! Histories of commands on one project: what a command gives depends on the project alone.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{Cursor, Read};
use std::path::Path;
use std::sync::Mutex;

use super::proj::{self, read_pbo, Addon, Cmd, Conf, Files, Loc, Node, Proj};
use crate::fw::Ck;
use crate::{ensure, ensure_eq};

fn h<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Edit {
    Nothing,
    ChangeScript,
    ChangeConfig,
    AddFile,
    RemoveFile,
    NewVersion,
    NewPrefix,
    OtherPrefixFile,
    AddAddon,
    RemoveOptional,
    ToggleHook,
    ExcludeScripts,
    ChangeInclude,
    BreakScript,
    BreakConfig,
    /// files in the output folders that nobody's command made
    JunkOut,
    /// left-over output of a binarization that was interrupted
    JunkTmp,
    LoseOut,
}
const EDITS: &[Edit] = &[
    Edit::Nothing,
    Edit::ChangeScript,
    Edit::ChangeConfig,
    Edit::AddFile,
    Edit::RemoveFile,
    Edit::NewVersion,
    Edit::NewPrefix,
    Edit::OtherPrefixFile,
    Edit::AddAddon,
    Edit::RemoveOptional,
    Edit::ToggleHook,
    Edit::ExcludeScripts,
    Edit::ChangeInclude,
    Edit::BreakScript,
    Edit::BreakConfig,
    Edit::JunkOut,
    Edit::JunkTmp,
    Edit::LoseOut,
];
const STEPS: &[Cmd] = &[Cmd::Check, Cmd::Build, Cmd::BuildJustA, Cmd::BuildNoRap, Cmd::Release, Cmd::ReleaseNoSign, Cmd::ReleaseNoArchive, Cmd::Dev, Cmd::DevAll, Cmd::DevJustA];

fn toggle(f: &mut Files, n: &str, c: &str) {
    if f.remove(n).is_none() {
        f.insert(n.into(), c.into());
    }
}
fn sub(f: &mut Files, n: &str, a: &str, b: &str) {
    if let Some(x) = f.get(n) {
        let s = String::from_utf8(x.clone()).unwrap();
        let s = if s.contains(a) { s.replacen(a, b, 1) } else { s.replacen(b, a, 1) };
        f.insert(n.into(), s.into_bytes());
    }
}
/// Edits undo themselves when done twice.
fn edit(f: &mut Files, e: Edit) {
    match e {
        Edit::Nothing | Edit::JunkOut | Edit::JunkTmp | Edit::LoseOut => {}
        Edit::ChangeScript => sub(f, "addons/a/functions/fn_a.sqf", "x = 1;", "x = 123;"),
        Edit::ChangeConfig => sub(f, "optionals/b/config.cpp", "units[] = {};", "units[] = {\"u\"};"),
        Edit::AddFile => toggle(f, "addons/a/data/new.txt", "new"),
        Edit::RemoveFile => toggle(f, "addons/a/readme.md", "text"),
        Edit::NewVersion => sub(f, ".hemtt/project.toml", "patch = 3", "patch = 4"),
        Edit::NewPrefix => sub(f, ".hemtt/project.toml", "prefix = \"p\"", "prefix = \"q\""),
        Edit::OtherPrefixFile => sub(f, "optionals/b/$PBOPREFIX$", "z\\p\\optionals\\b", "z\\r\\optionals\\b"),
        Edit::AddAddon => {
            toggle(f, "addons/c/$PBOPREFIX$", "z\\p\\addons\\c");
            toggle(f, "addons/c/config.cpp", &proj::config("c"));
        }
        Edit::RemoveOptional => {
            toggle(f, "optionals/b/$PBOPREFIX$", "z\\p\\optionals\\b");
            toggle(f, "optionals/b/config.cpp", &proj::config("b"));
        }
        Edit::ToggleHook => toggle(f, ".hemtt/hooks/pre_build/h.rhai", "HEMTT_VFS.join(\"addons\").join(\"a\").join(\"made.txt\").create_file().write(\"made\");\nHEMTT_VFS.join(\"mod.cpp\").create_file().write(\"by hook\");\n"),
        Edit::ExcludeScripts => toggle(f, "addons/a/addon.toml", "[files]\nexclude = [\"functions/*\"]\n"),
        Edit::ChangeInclude => sub(f, "include/x/cba/addons/main/script_macros_common.hpp", "42", "43"),
        Edit::BreakScript => toggle(f, "addons/a/functions/fn_broken.sqf", "x = ;"),
        Edit::BreakConfig => toggle(f, "optionals/b/x.rvmat", "class X { a = 1 };"),
    }
}
/// What is left of the project on disk follows the files.
fn apply(p: &Proj, f: &mut Files, e: Edit) {
    let old = f.clone();
    edit(f, e);
    for n in old.keys().filter(|n| !f.contains_key(*n)) {
        let _ = std::fs::remove_file(p.root.join(n));
        let mut d = Path::new(n).parent();
        while let Some(x) = d {
            if std::fs::remove_dir(p.root.join(x)).is_err() {
                break;
            }
            d = x.parent();
        }
    }
    let new: Files = f.iter().filter(|(n, c)| old.get(*n) != Some(*c)).map(|(n, c)| (n.clone(), c.clone())).collect();
    let mut more = Files::new();
    match e {
        Edit::JunkOut => {
            for m in ["build", "dev", "release", "check"] {
                for n in ["addons/old.pbo", "optionals/@p_old/addons/p_old.pbo", "old.txt"] {
                    more.insert(format!(".hemttout/{m}/{n}"), b"junk".to_vec());
                }
            }
        }
        Edit::JunkTmp => {
            for d in tmp_dirs(p) {
                more.insert(format!("{d}/hemtt_binarize_output/addons/a/left.txt"), b"left over".to_vec());
                more.insert(format!("{d}/hemtt_binarize_output/addons/a/readme.md"), b"left over".to_vec());
            }
        }
        Edit::LoseOut => {
            let _ = std::fs::remove_dir_all(p.root.join(".hemttout"));
        }
        _ => {}
    }
    p.put(&new);
    p.put(&more);
}
/// The temporary folders that earlier commands made, relative to the project.
fn tmp_dirs(p: &Proj) -> Vec<String> {
    let tmp = p.base().join("tmp");
    let mut out = vec![];
    fn walk(d: &Path, depth: usize, out: &mut Vec<std::path::PathBuf>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            if e.path().is_dir() {
                if depth == 0 {
                    out.push(e.path());
                } else {
                    walk(&e.path(), depth - 1, out);
                }
            }
        }
    }
    // TMPDIR/hemtt/<user>/<project>
    walk(&tmp, 2, &mut out);
    out.retain(|d| !d.ends_with("profile"));
    out.iter().map(|d| format!("../../../{}", d.strip_prefix(p.base()).unwrap().display())).collect()
}

pub type Tree = BTreeMap<String, Node>;
/// What a command gave, without what differs between any two runs: keys are new every time, and
/// archives and links hold times and the place of the project.
#[derive(Clone, Debug, PartialEq)]
pub struct Result_ {
    pub code: i32,
    pub out: Tree,
    pub releases: Tree,
    annotations: String,
}
fn normal(p: &Proj, t: &Tree, with: &Tree) -> Result<Tree, String> {
    let mut o = Tree::new();
    for (n, v) in t {
        let v = match v {
            Node::File(b) if n.ends_with(".bikey") => {
                let k = hemtt_signing::BIPublicKey::read(&mut &b[..]).map_err(|e| format!("{n}: {e}"))?;
                Node::File(format!("key of {}", k.authority()).into_bytes())
            }
            Node::File(b) if n.ends_with(".bisign") => {
                let s = hemtt_signing::BISign::read(&mut &b[..]).map_err(|e| format!("{n}: {e}"))?;
                // the key is the only one of that authority beside it
                let keys: Vec<&Vec<u8>> = with.iter().filter_map(|(k, v)| if let Node::File(b) = v { k.ends_with(&format!("/{}.bikey", s.authority())).then_some(b) } else { None }).collect();
                let pbo = &n[..n.rfind(".pbo.").ok_or(format!("{n} signs nothing"))? + 4];
                let Some(Node::File(a)) = t.get(pbo) else { return Err(format!("{n} signs nothing")) };
                let verified = keys.iter().any(|k| {
                    let Ok(k) = hemtt_signing::BIPublicKey::read(&mut &k[..]) else { return false };
                    let Ok(mut r) = hemtt_pbo::ReadablePbo::from(Cursor::new(a.clone())) else { return false };
                    k.verify(&mut r, &s).is_ok()
                });
                Node::File(format!("signed by {}: {verified}", s.authority()).into_bytes())
            }
            Node::File(b) if n.ends_with(".pbo") && b != b"junk" => {
                read_pbo(b).map_err(|e| format!("{n}: {e}"))?;
                Node::File(b.clone())
            }
            Node::Link(l) => Node::Link(l.strip_prefix(p.base()).unwrap_or(l).to_path_buf()),
            v => v.clone(),
        };
        o.insert(n.clone(), v);
    }
    Ok(o)
}
pub fn zips(p: &Proj, t: &Tree) -> Result<Tree, String> {
    let mut o = Tree::new();
    for (n, v) in t {
        let Node::File(b) = v else {
            o.insert(n.clone(), v.clone());
            continue;
        };
        let mut z = zip::ZipArchive::new(Cursor::new(b.clone())).map_err(|e| format!("{n}: {e}"))?;
        let mut inner = Tree::new();
        for i in 0..z.len() {
            let mut f = z.by_index(i).map_err(|e| e.to_string())?;
            let name = f.name().to_string();
            let mut b = vec![];
            let v = if f.is_dir() {
                Node::Dir
            } else {
                f.read_to_end(&mut b).map_err(|e| format!("{name}: {e}"))?;
                Node::File(b)
            };
            ensure!(inner.insert(name.clone(), v).is_none(), "{name} twice in {n}");
        }
        let inner = normal(p, &inner, &inner)?;
        o.insert(n.clone(), Node::File(format!("{inner:?}").into_bytes()));
    }
    Ok(o)
}
pub fn outcome(p: &Proj, cmd: Cmd, code: i32) -> Result<Result_, String> {
    let out = p.sub(&format!(".hemttout/{}", cmd.mode()));
    let place = p.root.to_string_lossy().to_string();
    let mut annotations: Vec<String> = String::from_utf8_lossy(&std::fs::read(p.root.join(".hemttout/ci_annotations.txt")).unwrap_or_default()).lines().map(|l| l.replace(&place, "ROOT")).collect();
    annotations.sort();
    Ok(Result_ { code, out: if code == 0 { normal(p, &out, &out)? } else { Tree::new() }, releases: zips(p, &p.sub("releases"))?, annotations: annotations.join("\n") })
}
pub fn others(p: &Proj, cmd: Cmd) -> Tree {
    let mode = cmd.mode();
    p.sub(".hemttout").into_iter().filter(|(n, _)| n != mode && !n.starts_with(&format!("{mode}/")) && n != "ci_annotations.txt" && n != "latest.log").collect()
}
pub fn base_project() -> Files {
    let mut f = proj::project(&[Addon { loc: Loc::Addons, name: "a", shape: 1 }, Addon { loc: Loc::Optionals, name: "b", shape: 0 }], Conf(0));
    let c = format!("#include \"\\x\\cba\\addons\\main\\script_macros_common.hpp\"\n{}class CfgX {{ v = CBA_VALUE; }};\n", proj::config("a"));
    f.insert("addons/a/config.cpp".into(), c.into_bytes());
    // enough properties that an order that changes from run to run shows
    f.get_mut(".hemtt/project.toml").unwrap().extend(b"\n[properties]\nauthor = \"x\"\nurl = \"y\"\nk1 = \"1\"\nk2 = \"2\"\nk3 = \"3\"\n");
    f.entry("optionals/b/addon.toml".into()).or_default().extend(b"\n[properties]\nauthor = \"z\"\nq1 = \"1\"\nq2 = \"2\"\n");
    f
}

pub type Fresh = Mutex<HashMap<(u64, Cmd), Result_>>;
pub fn fresh(m: &Fresh, f: &Files, cmd: Cmd) -> Result<Result_, String> {
    let k = (h(f), cmd);
    if let Some(r) = m.lock().unwrap().get(&k) {
        return Ok(r.clone());
    }
    let p = Proj::new(f);
    let o = p.run_env(&cmd.args(), &[], 4);
    ensure!(o.code < 2, "exit code {}", o.code);
    let r = outcome(&p, cmd, o.code)?;
    m.lock().unwrap().insert(k, r.clone());
    Ok(r)
}
fn name(n: &Node) -> String {
    match n {
        Node::File(b) => format!("a file of {} bytes", b.len()),
        Node::Dir => "a folder".into(),
        Node::Link(l) => format!("a link to {}", l.display()),
    }
}
pub fn differ(a: &Tree, b: &Tree) -> String {
    proj::diff(a, b).iter().map(|k| format!("{k}: {} instead of {}", a.get(k).map_or("nothing".into(), name), b.get(k).map_or("nothing".into(), name))).collect::<Vec<_>>().join(", ")
}
fn history(m: &Fresh, steps: &[(Edit, Cmd)]) -> Result<u64, String> {
    let mut f = base_project();
    let p = Proj::new(&f);
    let mut last = 0;
    for (i, (e, cmd)) in steps.iter().enumerate() {
        apply(&p, &mut f, *e);
        let at = format!("step {}, {e:?} then {cmd:?}", i + 1);
        let sources = p.sources();
        let keep = others(&p, *cmd);
        let before = p.sub(&format!(".hemttout/{}", cmd.mode()));
        let releases = zips(&p, &p.sub("releases"))?;
        let o = p.run_env(&cmd.args(), &[], 1);
        let r = outcome(&p, *cmd, o.code).map_err(|e| format!("{at}: {e}"))?;
        let w = fresh(m, &f, *cmd).map_err(|e| format!("{at}, in a fresh project: {e}"))?;
        ensure_eq!(r.code, w.code, "{at}: exit code; {}", crate::fw::clip(&o.text(), 600));
        ensure!(p.sources() == sources, "{at}: changed the sources: {:?}", proj::diff(&sources, &p.sources()));
        ensure_eq!(r.annotations, w.annotations, "{at}: annotations");
        let now = others(&p, *cmd);
        ensure!(now == keep, "{at}: changed the output of other commands: {}", differ(&now, &keep));
        // releases accumulate, those of the same version are replaced
        let mut rel = releases;
        rel.extend(w.releases.clone());
        ensure!(r.releases == rel, "{at}: releases: {}", differ(&r.releases, &rel));
        if r.code == 0 {
            let mut want = w.out.clone();
            if matches!(cmd, Cmd::BuildJustA | Cmd::DevJustA) {
                // what was there before stays
                let old = normal(&p, &before, &before)?;
                for (k, v) in old {
                    want.entry(k).or_insert(v);
                }
            }
            ensure!(r.out == want, "{at}: .hemttout/{}: {}", cmd.mode(), differ(&r.out, &want));
        }
        last = h((last, r.code, r.out.keys().collect::<BTreeSet<_>>(), r.releases.keys().collect::<BTreeSet<_>>()));
    }
    Ok(last)
}

pub fn x06(ck: &Ck) {
    ck.hang_secs(300);
    ck.assume("keys are made anew by every release: signatures and keys are compared by authority and by verifying, everything else byte by byte");
    let m: Fresh = Mutex::new(HashMap::new());
    let mut cases = vec![];
    for a in STEPS {
        for e in EDITS {
            for b in STEPS {
                cases.push(vec![(Edit::Nothing, *a), (*e, *b)]);
            }
        }
    }
    ck.explore("two-commands", "every command, then every edit, then every command: the result is that of a fresh project on more threads, other outputs, earlier releases and sources stay", cases, |s, o| {
        o.steps(s.len() as u64);
        o.state(history(&m, s)?);
        Ok(())
    });
    let cmds = ck.t(&[Cmd::Build, Cmd::Release, Cmd::DevJustA][..], &[Cmd::Build, Cmd::BuildJustA, Cmd::Release, Cmd::ReleaseNoArchive, Cmd::Dev, Cmd::DevJustA][..]);
    let edits = ck.t(&[Edit::NewVersion, Edit::NewPrefix, Edit::RemoveOptional, Edit::BreakScript][..], EDITS);
    let mut cases = vec![];
    for a in cmds {
        for e in edits {
            for b in cmds {
                for g in edits {
                    for c in cmds {
                        cases.push(vec![(Edit::Nothing, *a), (*e, *b), (*g, *c)]);
                    }
                }
            }
        }
    }
    ck.explore("three-commands", "the same with three commands and two edits", cases, |s, o| {
        o.steps(s.len() as u64);
        o.state(history(&m, s)?);
        Ok(())
    });
}
