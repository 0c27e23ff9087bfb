//! Hooks and scripts: which run, when, in what order, what they know and what they change.

use std::collections::BTreeMap;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{Cursor, Read};

use super::proj::{self, read_pbo, Addon, Cmd, Conf, Files, Loc, Node, Proj};
use crate::fw::Ck;
use crate::{ensure, ensure_eq};

fn h<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
const PHASES: [&str; 4] = ["pre_build", "post_build", "pre_release", "post_release"];
fn phases(c: Cmd) -> usize {
    match c.mode() {
        "check" => 1,
        "release" => 4,
        _ => 2,
    }
}
/// Appends one line to `log.txt` in the project.
const SAY: &str = r#"fn say(rfs, s) { let f = rfs.join("log.txt"); let old = ""; if f.exists() { old = f.open_file().read(); } f.create_file().write(old + s + "\n"); }
fn pbo(out) { out.join("addons").join("p_a.pbo").exists() }
fn sign(out) { let n = 0; for f in out.join("addons").list() { if f.file_name().ends_with(".bisign") { n += 1; } } n }
fn zips(rfs) { rfs.join("releases").list().len() }
"#;
fn base(version: &str) -> Files {
    let mut f = proj::project(&[Addon { loc: Loc::Addons, name: "a", shape: 1 }, Addon { loc: Loc::Addons, name: "main", shape: 0 }], Conf(0));
    f.insert(".hemtt/project.toml".into(), format!("name = \"My Project\"\nprefix = \"p\"\nauthor = \"a\"\nmainprefix = \"z\"\n[version]\n{version}").into_bytes());
    f
}
fn log(p: &Proj) -> Vec<String> {
    String::from_utf8_lossy(&std::fs::read(p.root.join("log.txt")).unwrap_or_default()).lines().map(str::to_string).collect()
}
fn without_log(t: BTreeMap<String, Node>) -> BTreeMap<String, Node> {
    t.into_iter().filter(|(n, _)| n != "log.txt").collect()
}

// ---------------------------------------------------------------- order

/// Names of the hooks of a phase, not in the order they run.
const SETS: [&[&str]; 4] = [&[], &["b.rhai"], &["b.rhai", "a.rhai", "10_x.rhai", "2_x.rhai", "aa.rhai"], &["z z.rhai", "B.rhai", "a.b.rhai", "_.rhai", "ä.rhai"]];
fn ordered(i: usize) -> Vec<&'static str> {
    let mut v = SETS[i].to_vec();
    v.sort_unstable();
    v
}
const ORDER_CMDS: &[Cmd] = &[Cmd::Check, Cmd::Build, Cmd::Dev, Cmd::BuildJustA, Cmd::Release, Cmd::ReleaseNoSign, Cmd::ReleaseNoArchive];

fn order(sets: &[usize], cmd: Cmd) -> Result<u64, String> {
    let mut f = base("major = 1\nminor = 2\npatch = 3\ngit_hash = 0\n");
    for (ph, s) in PHASES.iter().zip(sets) {
        for n in SETS[*s] {
            let code = format!(
                "{SAY}let v = HEMTT.project().version();\nsay(HEMTT_RFS, `{ph}/{n} ${{HEMTT.mode()}} ${{HEMTT.is_dev()}} ${{HEMTT.is_launch()}} ${{HEMTT.is_build()}} ${{HEMTT.is_release()}} ${{v.to_string()}} ${{v.to_string_short()}} ${{v.major()}},${{v.minor()}},${{v.patch()}},${{v.build()}} ${{HEMTT.project().name()}} ${{HEMTT.project().prefix()}} ${{HEMTT.project().mainprefix()}} ${{is_def_var(\"HEMTT_VFS\")}} ${{HEMTT_DIRECTORY.to_string() == HEMTT_RFS.to_string()}} ${{HEMTT_OUTPUT.to_string() == HEMTT_OUT.to_string()}} ${{HEMTT_OUT.to_string() == HEMTT_RFS.join(\".hemttout\").join(HEMTT.mode()).to_string()}} ${{pbo(HEMTT_OUT)}} ${{sign(HEMTT_OUT)}} ${{zips(HEMTT_RFS)}}`);\n"
            );
            f.insert(format!(".hemtt/hooks/{ph}/{n}"), code.into_bytes());
        }
        // what is deeper is no hook
        f.insert(format!(".hemtt/hooks/{ph}/sub/0.rhai"), format!("{SAY}say(HEMTT_RFS, \"sub\");\nfail();\n").into_bytes());
        f.insert(format!(".hemtt/hooks/{ph}/c.rhai/0.rhai"), b"not a script (".to_vec());
    }
    let p = Proj::new(&f);
    let before = p.sources();
    let o = p.run(&cmd.args());
    ensure_eq!(o.code, 0, "exit code; {}", o.tail());
    let mode = cmd.mode();
    let mut want = vec![];
    for (i, ph) in PHASES.iter().enumerate().take(phases(cmd)) {
        let signed = i == 3 && cmd != Cmd::ReleaseNoSign;
        let zipped = i == 3 && cmd != Cmd::ReleaseNoArchive;
        for n in ordered(sets[i]) {
            want.push(format!(
                "{ph}/{n} {mode} {} false {} {} 1.2.3 1.2.3 1,2,3,0 My Project p z {} true true true {} {} {}",
                mode == "dev",
                mode == "build",
                mode == "release",
                i < 3,
                i > 0,
                if signed { 2 } else { 0 },
                if zipped { 2 } else { 0 }
            ));
        }
    }
    let got: Vec<String> = log(&p);
    ensure_eq!(got, want, "hooks that ran");
    ensure!(without_log(p.sources()) == before, "sources changed");
    Ok(h((got, mode)))
}

// ---------------------------------------------------------------- version

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Source {
    Toml,
    /// `addons/main/script_version.hpp`
    Default,
    /// another file
    Path,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Bump {
    Vfs,
    Rfs,
    Script,
}
fn header(s: Source) -> &'static str {
    match s {
        Source::Path => "addons/a/ver.hpp",
        _ => "addons/main/script_version.hpp",
    }
}
fn macros(n: usize, build: bool) -> String {
    format!("#define MAJOR {n}\n#define MINOR 2\n#define PATCHLVL 3\n{}", if build { "#define BUILD 7\n" } else { "" })
}
const VERSION_CMDS: &[Cmd] = &[Cmd::Build, Cmd::Dev, Cmd::Release];

/// The hooks at `bumps` (phase, way) write the next version into the version file.
fn version(src: Source, git: bool, build: bool, bumps: &[(usize, Bump)], cmd: Cmd) -> Result<u64, String> {
    let hash = if git { "" } else { "git_hash = 0\n" };
    let mut f = base(&match src {
        Source::Toml => format!("major = 1\nminor = 2\npatch = 3\n{}{hash}", if build { "build = 7\n" } else { "" }),
        Source::Default => hash.to_string(),
        Source::Path => format!("path = \"addons/a/ver.hpp\"\n{hash}"),
    });
    f.insert(header(src).into(), macros(1, build).into_bytes());
    for (i, ph) in PHASES.iter().enumerate() {
        let write = |fs: &str, n: usize| {
            let path: String = header(src).split('/').map(|s| format!(".join(\"{s}\")")).collect();
            format!("{fs}{path}.create_file().write(\"{}\");\n", macros(n, build).replace('\n', "\\n"))
        };
        f.insert(format!(".hemtt/hooks/{ph}/1.rhai"), format!("{SAY}say(HEMTT_RFS, `{ph} before ${{HEMTT.project().version().to_string()}}`);\n").into_bytes());
        f.insert(format!(".hemtt/hooks/{ph}/3.rhai"), format!("{SAY}say(HEMTT_RFS, `{ph} after ${{HEMTT.project().version().to_string()}}`);\n").into_bytes());
        for (k, (at, way)) in bumps.iter().enumerate() {
            if *at != i {
                continue;
            }
            let body = match way {
                Bump::Vfs => write("HEMTT_VFS", k + 2),
                Bump::Rfs => write("HEMTT_RFS", k + 2),
                Bump::Script => {
                    f.insert(format!(".hemtt/scripts/bump{k}.rhai"), write("HEMTT_RFS", k + 2).into_bytes());
                    format!("HEMTT.script(\"bump{k}\");\n")
                }
            };
            f.insert(format!(".hemtt/hooks/{ph}/2_{k}.rhai"), body.into_bytes());
        }
    }
    let p = Proj::new(&f);
    let suffix = if git {
        let id = proj::git_init(&p);
        format!("-{}", &id[..8])
    } else if build {
        ".7".into()
    } else {
        String::new()
    };
    let o = p.run(&cmd.args());
    ensure_eq!(o.code, 0, "exit code; {}", o.tail());
    let show = |n: usize| format!("{n}.2.3{suffix}");
    let mut now = 1;
    let mut vfs_wins = false;
    let (mut want, mut packed, mut archived) = (vec![], 0, 0);
    for (i, ph) in PHASES.iter().enumerate().take(phases(cmd)) {
        want.push(format!("{ph} before {}", show(now)));
        for (k, (at, way)) in bumps.iter().enumerate() {
            if *at == i && src != Source::Toml {
                // what a hook wrote to the virtual file system hides the file on disk
                if *way == Bump::Vfs {
                    vfs_wins = true;
                    now = k + 2;
                } else if !vfs_wins {
                    now = k + 2;
                }
            }
        }
        want.push(format!("{ph} after {}", show(now)));
        match i {
            0 => packed = now,
            2 => archived = now,
            _ => {}
        }
    }
    ensure_eq!(log(&p), want, "versions that the hooks saw");
    let pbo = std::fs::read(p.root.join(format!(".hemttout/{}/addons/p_main.pbo", cmd.mode()))).map_err(|e| format!("no archive: {e}"))?;
    let a = read_pbo(&pbo)?;
    ensure_eq!(a.props.get("version"), Some(&show(packed)), "version of the archive");
    if cmd == Cmd::Release {
        let names: Vec<String> = p.sub("releases").keys().cloned().collect();
        ensure_eq!(names, vec![format!("p-{}.zip", show(archived)), "p-latest.zip".to_string()], "release files");
        let z = std::fs::read(p.root.join("releases").join(&names[0])).map_err(|e| e.to_string())?;
        let mut z = zip::ZipArchive::new(Cursor::new(z)).map_err(|e| e.to_string())?;
        let mut b = vec![];
        z.by_name("@p/addons/p_main.pbo").map_err(|e| e.to_string())?.read_to_end(&mut b).map_err(|e| e.to_string())?;
        ensure!(b == pbo, "the release holds another archive");
    }
    // virtual edits never reach the disk
    let disk = bumps.iter().enumerate().filter(|(_, (i, w))| *i < phases(cmd) && *w != Bump::Vfs).map(|(k, (i, _))| (*i, k)).max().map_or(1, |(_, k)| k + 2);
    ensure_eq!(std::fs::read_to_string(p.root.join(header(src))).unwrap_or_default(), macros(disk, build), "version file on disk");
    Ok(h((want, packed, archived)))
}

// ---------------------------------------------------------------- edits

/// One change of the project: what the hook does with the virtual (or real) file system, and the
/// same on a map of files.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Edit {
    Create(&'static str, &'static str),
    Remove(&'static str),
    Move(&'static str, &'static str),
    Copy(&'static str, &'static str),
    Append(&'static str, &'static str),
    RemoveDir(&'static str),
    CopyDir(&'static str, &'static str),
}
fn path(fs: &str, p: &str) -> String {
    format!("{fs}{}", p.split('/').map(|s| format!(".join(\"{s}\")")).collect::<String>())
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")
}
impl Edit {
    fn code(self, fs: &str) -> String {
        match self {
            Edit::Create(n, c) => {
                let dir = n.rsplit_once('/').map_or(String::new(), |(d, _)| format!("let d = {};\nif !d.exists() {{ d.create_dir_all(); }}\n", path(fs, d)));
                format!("{dir}{}.create_file().write(\"{}\");\n", path(fs, n), esc(c))
            }
            Edit::Remove(n) => format!("{}.remove_file();\n", path(fs, n)),
            Edit::Move(a, b) => format!("{}.move({});\n", path(fs, a), path(fs, b)),
            Edit::Copy(a, b) => format!("{}.copy({});\n", path(fs, a), path(fs, b)),
            Edit::Append(n, c) => format!("let old = {}.open_file().read();\n{}.create_file().write(old + \"{}\");\n", path(fs, n), path(fs, n), esc(c)),
            Edit::RemoveDir(n) => format!("{}.remove_dir_all();\n", path(fs, n)),
            Edit::CopyDir(a, b) => format!("{}.copy({});\n", path(fs, a), path(fs, b)),
        }
    }
    fn apply(self, f: &mut Files) -> bool {
        match self {
            Edit::Create(n, c) => {
                f.insert(n.into(), c.into());
            }
            Edit::Remove(n) => return f.remove(n).is_some(),
            Edit::Move(a, b) => {
                if f.contains_key(b) {
                    return false;
                }
                let Some(x) = f.remove(a) else { return false };
                f.insert(b.into(), x);
            }
            Edit::Copy(a, b) => {
                if f.contains_key(b) {
                    return false;
                }
                let Some(x) = f.get(a).cloned() else { return false };
                f.insert(b.into(), x);
            }
            Edit::Append(n, c) => {
                let Some(x) = f.get_mut(n) else { return false };
                x.extend_from_slice(c.as_bytes());
            }
            Edit::RemoveDir(n) => {
                let k = f.len();
                f.retain(|p, _| !p.starts_with(&format!("{n}/")));
                return f.len() < k;
            }
            Edit::CopyDir(a, b) => {
                if f.keys().any(|p| p.starts_with(&format!("{b}/"))) {
                    return false;
                }
                let new: Vec<_> = f.iter().filter_map(|(p, c)| p.strip_prefix(&format!("{a}/")).map(|r| (format!("{b}/{r}"), c.clone()))).collect();
                let any = !new.is_empty();
                f.extend(new);
                return any;
            }
        }
        true
    }
}
const EDITS: &[Edit] = &[
    Edit::Create("addons/a/new.txt", "new\nfile"),
    Edit::Create("addons/a/new.sqf", "n = 1;"),
    Edit::Create("addons/a/bad.sqf", "n = ;"),
    Edit::Create("addons/a/deep/er/x.rvmat", "ambient[] = {1,1,1,1};\n"),
    Edit::Create("addons/a/functions/fn_a.sqf", "x = 100;\n"),
    Edit::Create("addons/a/script_component.hpp", "#define COMPONENT other\n"),
    Edit::Create("addons/a/readme.md", ""),
    Edit::Create("addons/a/mission/description.ext", "respawn = 3;\n"),
    Edit::Create("addons/main/stringtable.xml", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"x\"><Package name=\"p\"><Key ID=\"STR_p_a\"><English>a</English></Key></Package></Project>\n"),
    Edit::Create("mod.cpp", "name = \"other\";"),
    Edit::Create("logo_co.paa", "another logo"),
    Edit::Append("addons/a/config.cpp", "class CfgNew { v = COMPONENT_V; };\n"),
    Edit::Append("addons/main/config.cpp", "#include \"\\z\\p\\addons\\a\\shared.hpp\"\n"),
    Edit::Create("addons/a/shared.hpp", "class CfgShared { v = 1; };\n"),
    Edit::Append("addons/a/functions/fn_a.sqf", "y = 2;\n"),
    Edit::Remove("addons/a/readme.md"),
    Edit::Remove("addons/a/functions/fn_a.sqf"),
    Edit::Remove("mod.cpp"),
    Edit::Remove("addons/a/new.txt"),
    Edit::Move("addons/a/readme.md", "addons/a/moved.md"),
    Edit::Move("addons/a/functions/fn_a.sqf", "addons/a/functions/fn_b.sqf"),
    Edit::Move("addons/a/readme.md", "addons/main/readme.md"),
    Edit::Copy("addons/a/functions/fn_a.sqf", "addons/main/fn_a.sqf"),
    Edit::Copy("LICENSE", "addons/a/LICENSE"),
    Edit::RemoveDir("addons/a/functions"),
    Edit::CopyDir("addons/a/functions", "addons/main/functions"),
    Edit::CopyDir("docs", "addons/a/docs"),
    Edit::Create("docs/readme.md", "from a hook"),
];
fn edit_base() -> Files {
    let mut f = base("major = 1\nminor = 2\npatch = 3\ngit_hash = 0\n[files]\ninclude = [\"docs/**\"]\n");
    f.insert("addons/a/script_component.hpp".into(), b"#define COMPONENT main\n#define COMPONENT_V 5\n".to_vec());
    let c = format!("#include \"script_component.hpp\"\n{}", proj::config("a"));
    f.insert("addons/a/config.cpp".into(), c.into_bytes());
    f
}
fn produced(p: &Proj, cmd: Cmd) -> BTreeMap<String, Node> {
    // keys are new every time
    p.sub(&format!(".hemttout/{}", cmd.mode())).into_iter().map(|(n, v)| if n.ends_with(".bikey") || n.ends_with(".bisign") { (n, Node::Dir) } else if let Node::Link(l) = v { (n, Node::Link(l.strip_prefix(p.base()).unwrap_or(&l).to_path_buf())) } else { (n, v) }).collect()
}
/// Doing the edits in hooks gives what a project gives that has them on disk.
fn edits(list: &[Edit], real: bool, split: bool, cmd: Cmd) -> Result<Option<u64>, String> {
    let mut want = edit_base();
    for e in list {
        if !e.apply(&mut want) {
            return Ok(None);
        }
    }
    let mut f = edit_base();
    let fs = if real { "HEMTT_RFS" } else { "HEMTT_VFS" };
    if split {
        for (i, e) in list.iter().enumerate() {
            f.insert(format!(".hemtt/hooks/pre_build/{i}.rhai"), e.code(fs).into_bytes());
        }
    } else {
        let code: String = list.iter().map(|e| format!("{{ {} }}\n", e.code(fs))).collect();
        f.insert(".hemtt/hooks/pre_build/0.rhai".into(), code.into_bytes());
    }
    let p = Proj::new(&f);
    let q = Proj::new(&want);
    let before = p.sources();
    let (a, b) = (p.run(&cmd.args()), q.run(&cmd.args()));
    ensure_eq!(a.code, b.code, "exit code with the edits in hooks, and on disk; {}", a.tail());
    if !real {
        ensure!(p.sources() == before, "virtual edits changed the disk: {:?}", proj::diff(&before, &p.sources()));
    } else {
        let strip = |t: BTreeMap<String, Node>| -> BTreeMap<String, Node> { t.into_iter().filter(|(n, v)| !n.starts_with(".hemtt") && *v != Node::Dir).collect() };
        let (x, y) = (strip(p.sources()), strip(q.sources()));
        ensure!(x == y, "real edits left {:?}", proj::diff(&x, &y));
    }
    if a.code == 0 {
        let (x, y) = (produced(&p, cmd), produced(&q, cmd));
        ensure!(x == y, "output differs in {:?}", proj::diff(&x, &y));
        ensure_eq!(p.sub("releases").keys().collect::<Vec<_>>(), q.sub("releases").keys().collect::<Vec<_>>(), "releases");
        return Ok(Some(h(format!("{:?}", x.iter().filter(|(n, _)| !n.contains("bikey")).collect::<Vec<_>>()))));
    }
    Ok(Some(h(a.code)))
}

// ---------------------------------------------------------------- late edits

/// Edits after packing do not change archives.
fn late(e: Edit, phase: usize, cmd: Cmd) -> Result<Option<u64>, String> {
    let f = edit_base();
    let mut x = f.clone();
    if !e.apply(&mut x) || phase >= phases(cmd) {
        return Ok(None);
    }
    let mut g = f.clone();
    g.insert(format!(".hemtt/hooks/{}/0.rhai", PHASES[phase]), e.code("HEMTT_VFS").into_bytes());
    let (p, q) = (Proj::new(&g), Proj::new(&f));
    let before = p.sources();
    let (a, b) = (p.run(&cmd.args()), q.run(&cmd.args()));
    ensure_eq!((a.code, b.code), (0, 0), "exit codes; {}", a.tail());
    ensure!(p.sources() == before, "virtual edits changed the disk: {:?}", proj::diff(&before, &p.sources()));
    let keep = |t: BTreeMap<String, Node>| -> BTreeMap<String, Node> { t.into_iter().filter(|(n, _)| n.starts_with("addons/")).collect() };
    let (x, y) = (keep(produced(&p, cmd)), keep(produced(&q, cmd)));
    ensure!(x == y, "archives changed after packing: {:?}", proj::diff(&x, &y));
    Ok(Some(h((phase, x.len()))))
}

// ---------------------------------------------------------------- failures

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End {
    Fatal,
    Throw,
    ScriptFatal,
    ScriptThrow,
    NoScript,
    /// none of these is a failure
    Error,
    Warn,
    Value,
    ScriptValue,
    Caught,
    ScriptError,
    ScriptCaught,
}
const ENDS: &[End] = &[End::Fatal, End::Throw, End::ScriptFatal, End::ScriptThrow, End::NoScript, End::Error, End::Warn, End::Value, End::ScriptValue, End::Caught, End::ScriptError, End::ScriptCaught];
impl End {
    fn fails(self) -> bool {
        matches!(self, End::Fatal | End::Throw | End::ScriptFatal | End::ScriptThrow | End::NoScript)
    }
    fn code(self, f: &mut Files) -> &'static str {
        let mut s = |c: &str| f.insert(".hemtt/scripts/s.rhai".into(), c.into());
        match self {
            End::Fatal => "fatal(\"marker\");",
            End::Throw => "throw \"marker\";",
            End::ScriptFatal => {
                s("fatal(\"marker\");");
                "HEMTT.script(\"s\");"
            }
            End::ScriptThrow => {
                s("throw \"marker\";");
                "HEMTT.script(\"s\");"
            }
            End::NoScript => "HEMTT.script(\"marker\");",
            End::Error => "error(\"marker\");",
            End::Warn => "warn(\"marker\");",
            End::Value => "info(\"marker\"); false",
            End::ScriptValue => {
                s("let f = |x| x * 2; #{ v: [f.call(3), `${HEMTT.mode()}`, is_def_var(\"HEMTT_VFS\")] }");
                "let r = HEMTT.script(\"s\"); print(\"marker\"); if r.v[0] != 6 || r.v[1] != HEMTT.mode() || r.v[2] { throw `bad value ${r}`; }"
            }
            End::Caught => "try { throw \"x\"; } catch (e) { print(\"marker\"); }",
            End::ScriptError => {
                s("error(\"marker\"); warn(\"x\");");
                "HEMTT.script(\"s\");"
            }
            End::ScriptCaught => {
                s("throw \"marker\";");
                "try { HEMTT.script(\"s\"); } catch (e) { print(`caught ${e}`); }"
            }
        }
    }
}
/// A hook or script that ends like this: what runs afterwards, and what is left.
fn ending(e: End, phase: usize, cmd: Cmd) -> Result<u64, String> {
    let mut f = base("major = 1\nminor = 2\npatch = 3\ngit_hash = 0\n");
    for ph in PHASES {
        f.insert(format!(".hemtt/hooks/{ph}/1.rhai"), format!("{SAY}say(HEMTT_RFS, \"{ph}\");\n").into_bytes());
    }
    let c = e.code(&mut f);
    f.insert(format!(".hemtt/hooks/{}/2.rhai", PHASES[phase]), c.into());
    let p = Proj::new(&f);
    let before = p.sources();
    let o = p.run(&cmd.args());
    let hit = phase < phases(cmd);
    let fails = hit && e.fails();
    ensure_eq!(o.code, i32::from(fails), "exit code; {}", o.tail());
    let want: Vec<&str> = PHASES[..if fails { phase + 1 } else { phases(cmd) }].to_vec();
    ensure_eq!(log(&p), want, "phases that ran");
    ensure_eq!(o.text().lines().filter(|l| !l.contains("TRACE") && !l.contains("DEBUG")).any(|l| l.contains("marker")), hit, "message shown; {}", o.tail());
    let out = p.sub(&format!(".hemttout/{}", cmd.mode()));
    let (pbos, signs) = (out.keys().filter(|n| n.ends_with(".pbo")).count(), out.keys().filter(|n| n.ends_with(".bisign")).count());
    let zips = p.sub("releases").len();
    let at = if fails { phase } else { 9 };
    let release = cmd.mode() == "release";
    ensure_eq!(pbos, if cmd == Cmd::Check || at == 0 { 0 } else { 2 }, "archives");
    // a failing pre_release hook stops before or after signing: nothing says which
    if at != 2 {
        ensure_eq!(signs, if release && at > 2 { 2 } else { 0 }, "signatures");
    }
    ensure_eq!(zips, if release && at > 2 { 2 } else { 0 }, "release files");
    ensure!(without_log(p.sources()) == before, "sources changed");
    Ok(h((o.code, want.len(), pbos, signs, zips)))
}
/// `hemtt script` itself.
fn script(e: End, name: &str) -> Result<u64, String> {
    let mut f = base("major = 1\nminor = 2\npatch = 3\ngit_hash = 0\n");
    let c = e.code(&mut f);
    f.insert(format!(".hemtt/scripts/{name}.rhai"), format!("{SAY}say(HEMTT_RFS, `${{HEMTT.mode()}} ${{is_def_var(\"HEMTT_VFS\")}} ${{HEMTT.project().version().to_string()}}`);\n{c}\n").into_bytes());
    for ph in PHASES {
        f.insert(format!(".hemtt/hooks/{ph}/1.rhai"), format!("{SAY}say(HEMTT_RFS, \"{ph}\");\n").into_bytes());
    }
    let p = Proj::new(&f);
    let before = p.sources();
    let o = p.run(&["script", name]);
    ensure_eq!(o.code, i32::from(e.fails()), "exit code; {}", o.tail());
    ensure_eq!(log(&p), vec!["script false 1.2.3"], "what ran");
    ensure!(o.text().contains("marker"), "message shown; {}", o.tail());
    ensure!(without_log(p.sources()) == before, "sources changed");
    ensure_eq!(p.sub("releases").len(), 0, "releases");
    Ok(h(o.code))
}

pub fn x08(ck: &Ck) {
    ck.hang_secs(300);
    let mut cases = vec![];
    let n = ck.t(3, 4);
    for s in 0..n * n * n * n {
        let s = vec![s % n, s / n % n, s / n / n % n, s / n / n / n];
        for c in ORDER_CMDS {
            cases.push((s.clone(), *c));
        }
    }
    ck.explore("order", "every assignment of hook sets to the four phases x every command: exactly the phases of the command run, in order, and know the project and what exists by then", cases, |(s, c), o| {
        o.steps(1);
        o.state(order(s, *c)?);
        Ok(())
    });
    let mut cases = vec![];
    for src in [Source::Toml, Source::Default, Source::Path] {
        for (git, build) in [(false, false), (false, true), (true, false)] {
            for c in VERSION_CMDS {
                let mut bumps: Vec<Vec<(usize, Bump)>> = vec![vec![]];
                let all: Vec<(usize, Bump)> = (0..4).flat_map(|i| [Bump::Vfs, Bump::Rfs, Bump::Script].map(|w| (i, w))).filter(|(i, w)| *i < 3 || *w != Bump::Vfs).collect();
                bumps.extend(all.iter().map(|b| vec![*b]));
                if c == &Cmd::Release && (!ck.quick() || (src == Source::Default && !git && !build)) {
                    for a in &all {
                        bumps.extend(all.iter().filter(|b| b.0 >= a.0).map(|b| vec![*a, *b]));
                    }
                }
                for b in bumps {
                    cases.push((src, git, build, b, *c));
                }
            }
        }
    }
    ck.explore("versions", "every version source x every place where hooks change the version: all that comes later, and only that, has the new version", cases, |(s, g, b, l, c), o| {
        o.steps(1);
        o.state(version(*s, *g, *b, l, *c)?);
        Ok(())
    });
    let mut cases = vec![];
    for c in [Cmd::Build, Cmd::Dev, Cmd::Release, Cmd::Check] {
        for real in [false, true] {
            for e in EDITS {
                cases.push((vec![*e], real, false, c));
            }
        }
    }
    for c in ck.t(&[Cmd::Build][..], &[Cmd::Build, Cmd::Dev][..]) {
        for real in ck.t(&[false][..], &[false, true][..]) {
            for a in EDITS {
                for b in EDITS {
                    if a != b {
                        cases.push((vec![*a, *b], *real, h((a, b)) % 2 == 0, *c));
                    }
                }
            }
        }
    }
    ck.explore("edits", "every edit, and every ordered pair of edits, made by pre_build hooks: the output is that of a project which has them on disk, and virtual edits leave the disk alone", cases, |(l, r, s, c), o| {
        o.steps(2);
        if let Some(x) = edits(l, *r, *s, *c)? {
            o.state(x);
        }
        Ok(())
    });
    let mut cases = vec![];
    for c in [Cmd::Build, Cmd::Dev, Cmd::Release] {
        for ph in 1..3 {
            for e in EDITS {
                cases.push((*e, ph, c));
            }
        }
    }
    ck.explore("late-edits", "every virtual edit made after packing: archives and disk stay as they are", cases, |(e, ph, c), o| {
        o.steps(2);
        if let Some(x) = late(*e, *ph, *c)? {
            o.state(x);
        }
        Ok(())
    });
    let mut cases = vec![];
    for e in ENDS {
        for ph in 0..4 {
            for c in [Cmd::Check, Cmd::Build, Cmd::Dev, Cmd::Release] {
                cases.push((*e, ph, c));
            }
        }
    }
    ck.explore("endings", "every way a hook can end x every phase x every command: failures stop what follows and fail the command, others do not", cases, |(e, ph, c), o| {
        o.steps(1);
        o.state(ending(*e, *ph, *c)?);
        Ok(())
    });
    let mut cases = vec![];
    for &e in ENDS {
        for name in ["main", "main.v2", "a-b_c", "sub/x.1"] {
            cases.push((e, name));
        }
    }
    ck.explore("scripts", "every way a script can end under `hemtt script`, with different names", cases, |(e, name), o| {
        o.steps(1);
        o.state(script(*e, name)?);
        Ok(())
    });
}
