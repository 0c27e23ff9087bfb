//! Whole projects through the `hemtt` command line: what `build`, `dev`, `release` and `check` leave
//! behind, compared with a model of the project configuration.
//!
//! Every execution runs as an unprivileged user that owns nothing but the scratch directory of
//! its case, so that a changed hemtt that deletes or writes elsewhere cannot harm anything.

use std::collections::{BTreeMap, BTreeSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{Cursor, Read};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

use clap::CommandFactory;
use sha1::{Digest, Sha1};

use crate::fw::{clip, scratch, Ck, R};
use crate::{ensure, ensure_eq};

const UID: u32 = 65534;

pub type Files = BTreeMap<String, Vec<u8>>;

pub fn files(list: &[(&str, &str)]) -> Files {
    list.iter().map(|(a, b)| (a.to_string(), b.as_bytes().to_vec())).collect()
}

/// What a path in the file system is.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Link(PathBuf),
}
pub fn tree(root: &Path) -> BTreeMap<String, Node> {
    fn walk(d: &Path, rel: &str, out: &mut BTreeMap<String, Node>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            let r = if rel.is_empty() { name.clone() } else { format!("{rel}/{name}") };
            let ft = e.file_type().expect("type");
            if ft.is_symlink() {
                out.insert(r, Node::Link(std::fs::read_link(e.path()).expect("link")));
            } else if ft.is_dir() {
                out.insert(r.clone(), Node::Dir);
                walk(&e.path(), &r, out);
            } else {
                out.insert(r, Node::File(std::fs::read(e.path()).expect("read")));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(root, "", &mut out);
    out
}

pub struct Out {
    pub code: i32,
    pub stdout: Vec<u8>,
    pub stderr: String,
}
impl Out {
    pub fn text(&self) -> String {
        format!("{}{}", String::from_utf8_lossy(&self.stdout), self.stderr)
    }
    /// The end of what a user sees.
    pub fn tail(&self) -> String {
        let t: Vec<String> = self.text().lines().filter(|l| !l.contains("TRACE") && !l.contains("DEBUG")).map(str::to_string).collect();
        let t: Vec<char> = t.join("\n").chars().collect();
        t[t.len().saturating_sub(800)..].iter().collect()
    }
}

pub fn chown_all(p: &Path) {
    let _ = std::os::unix::fs::lchown(p, Some(UID), Some(UID));
    if std::fs::symlink_metadata(p).is_ok_and(|m| m.is_dir()) {
        for e in std::fs::read_dir(p).expect("dir").flatten() {
            chown_all(&e.path());
        }
    }
}

/// The binary under test, where the unprivileged user can execute it.
fn exe() -> &'static PathBuf {
    static EXE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    EXE.get_or_init(|| {
        let to = scratch().join("hemtt-under-test");
        std::fs::copy(std::env::current_exe().expect("exe"), &to).expect("copy exe");
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).expect("chmod");
        to
    })
}

/// A project on disk, removed when dropped.
pub struct Proj {
    base: PathBuf,
    pub root: PathBuf,
}
static N: AtomicU64 = AtomicU64::new(0);
impl Proj {
    pub fn new(f: &Files) -> Self {
        let base = scratch().join(format!("c{}", N.fetch_add(1, Ordering::SeqCst)));
        let s = Self { root: base.join("home").join("u").join("p"), base };
        for d in [&s.root, &s.base.join("tmp")] {
            std::fs::create_dir_all(d).expect("mkdir");
        }
        s.put(f);
        s
    }
    pub fn base(&self) -> &Path {
        &self.base
    }
    pub fn put(&self, f: &Files) {
        for (n, c) in f {
            let p = self.root.join(n);
            if n.ends_with('/') {
                std::fs::create_dir_all(&p).expect("mkdir");
                continue;
            }
            std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            std::fs::write(&p, c).expect("write");
        }
        chown_all(&self.base);
    }
    pub fn run(&self, args: &[&str]) -> Out {
        self.run_env(args, &[], 1)
    }
    pub fn run_env(&self, args: &[&str], env: &[(&str, &str)], threads: u32) -> Out {
        self.run_with(args, env, threads, Stdio::null())
    }
    /// The same, and wait until every process that was started has ended.
    pub fn run_wait(&self, args: &[&str], env: &[(&str, &str)]) -> Out {
        let (mut r, w) = std::io::pipe().expect("pipe");
        let o = self.run_with(args, env, 1, w.into());
        let mut rest = vec![];
        let _ = std::io::Read::read_to_end(&mut r, &mut rest);
        o
    }
    /// Run at a terminal: each text is typed after its prompt was shown once more than before.
    pub fn run_terminal(&self, args: &[&str], script: &[(&str, String)]) -> Result<(i32, String), String> {
        use std::io::{Read, Write};
        use std::os::fd::FromRawFd;
        let (mut m, mut s) = (0, 0);
        let size = libc::winsize { ws_row: 50, ws_col: 500, ws_xpixel: 0, ws_ypixel: 0 };
        // SAFETY: plain call with valid pointers
        if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &size) } != 0 {
            return Err(format!("openpty: {}", std::io::Error::last_os_error()));
        }
        // SAFETY: both are open and owned by nobody else
        let (master, slave) = unsafe { (std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s)) };
        for fd in [m, s] {
            // SAFETY: open descriptors
            unsafe { libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC) };
        }
        let mut c = self.command(args, &[("TERM", "xterm")], 1);
        c.stdin(slave.try_clone().map_err(|e| e.to_string())?).stdout(slave.try_clone().map_err(|e| e.to_string())?).stderr(slave);
        let mut child = c.spawn().map_err(|e| e.to_string())?;
        drop(c);
        let seen = std::sync::Arc::new(std::sync::Mutex::new((Vec::new(), false)));
        let copy = seen.clone();
        let mut r = master.try_clone().map_err(|e| e.to_string())?;
        let t = std::thread::spawn(move || {
            let mut b = [0u8; 4096];
            while let Ok(n) = r.read(&mut b) {
                if n == 0 {
                    break;
                }
                copy.lock().unwrap().0.extend_from_slice(&b[..n]);
            }
            copy.lock().unwrap().1 = true;
        });
        let mut w = &master;
        let start = std::time::Instant::now();
        let mut from = 0;
        for (prompt, text) in script {
            loop {
                let g = seen.lock().unwrap();
                if let Some(at) = g.0[from..].windows(prompt.len()).position(|x| x == prompt.as_bytes()) {
                    from += at + prompt.len();
                    break;
                }
                if g.1 || start.elapsed().as_secs() > 60 {
                    break;
                }
                drop(g);
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
            if seen.lock().unwrap().1 || start.elapsed().as_secs() > 60 {
                break;
            }
            let _ = w.write_all(text.as_bytes());
            // what is echoed is not a prompt
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        let status = loop {
            if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
                break s;
            }
            if start.elapsed().as_secs() > 90 {
                let _ = child.kill();
                let _ = child.wait();
                return Err(format!("waits for ever; {}", String::from_utf8_lossy(&seen.lock().unwrap().0)));
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        };
        let _ = t.join();
        use std::os::unix::process::ExitStatusExt;
        let text = String::from_utf8_lossy(&seen.lock().unwrap().0).to_string();
        let t: Vec<char> = text.chars().collect();
        Ok((status.code().unwrap_or_else(|| 1000 + status.signal().unwrap_or(0)), t[t.len().saturating_sub(1500)..].iter().collect()))
    }
    /// The same place, with a project in a folder of this one.
    pub fn inside(&self, rel: &str) -> Inside<'_> {
        Inside(self, self.root.join(rel))
    }
    fn run_with(&self, args: &[&str], env: &[(&str, &str)], threads: u32, stdin: Stdio) -> Out {
        let mut c = self.command(args, env, threads);
        let o = c.stdin(stdin).output().expect("spawn hemtt");
        use std::os::unix::process::ExitStatusExt;
        Out {
            code: o.status.code().unwrap_or_else(|| 1000 + o.status.signal().unwrap_or(0)),
            stdout: o.stdout,
            stderr: String::from_utf8_lossy(&o.stderr).to_string(),
        }
    }
    /// Run it up to an operation (see fault.rs), then `between`, then the rest.
    pub fn run_around<T>(&self, args: &[&str], at: usize, between: impl FnOnce() -> T) -> (Out, Option<T>) {
        let (at, base) = (format!("{at}:wait"), self.base.to_string_lossy().to_string());
        let mut c = self.command(args, &[("MC_FAULT_IN", &base), ("MC_FAULT", &at)], 1);
        let mut child = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn hemtt");
        let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let (o, e) = (
            std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v }),
            std::thread::spawn(move || { let mut v = vec![]; let _ = e.read_to_end(&mut v); v }),
        );
        let mut got = None;
        let status = loop {
            if got.is_none() && self.base.join("tmp/waiting").exists() {
                got = Some(true);
                break None;
            }
            if let Some(s) = child.try_wait().expect("wait") {
                break Some(s);
            }
            std::thread::sleep(std::time::Duration::from_micros(300));
        };
        let between = got.map(|_| between());
        std::fs::write(self.base.join("tmp/go"), "").expect("go");
        let status = status.unwrap_or_else(|| child.wait().expect("wait"));
        use std::os::unix::process::ExitStatusExt;
        let out = Out {
            code: status.code().unwrap_or_else(|| 1000 + status.signal().unwrap_or(0)),
            stdout: o.join().unwrap_or_default(),
            stderr: String::from_utf8_lossy(&e.join().unwrap_or_default()).to_string(),
        };
        (out, between)
    }
    fn command(&self, args: &[&str], env: &[(&str, &str)], threads: u32) -> Command {
        let mut c = Command::new(exe());
        c.args(args);
        c.env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("CI", "1")
            .env("HEMTT_UNDER_TEST", &self.root)
            .env("HOME", self.base.join("home"))
            .env("TMPDIR", self.base.join("tmp"))
            .env("RAYON_NUM_THREADS", threads.to_string())
            .envs(env.iter().copied())
            .current_dir(&self.base)
            .uid(UID)
            .gid(UID);
        c
    }
    /// Everything that belongs to the author: all of the project but hemtt's outputs.
    pub fn sources(&self) -> BTreeMap<String, Node> {
        tree(&self.root).into_iter().filter(|(n, _)| !n.starts_with(".hemttout") && n != "releases" && !n.starts_with("releases/") && !n.starts_with(".git/")).collect()
    }
    pub fn sub(&self, rel: &str) -> BTreeMap<String, Node> {
        tree(&self.root.join(rel))
    }
}
pub struct Inside<'a>(&'a Proj, PathBuf);
impl Inside<'_> {
    pub fn run(&self, args: &[&str]) -> Out {
        self.0.run_env(args, &[("HEMTT_UNDER_TEST", &self.1.to_string_lossy())], 1)
    }
}
impl Drop for Proj {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.base);
    }
}

// ---------------------------------------------------------------- reading archives independently

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Arc {
    pub props: BTreeMap<String, String>,
    pub files: Vec<(String, Vec<u8>)>,
}
pub fn read_pbo(b: &[u8]) -> Result<Arc, String> {
    let mut p = 0;
    let cstr = |p: &mut usize| -> Result<String, String> {
        let n = b[*p..].iter().position(|c| *c == 0).ok_or("string without end")?;
        let s = String::from_utf8(b[*p..*p + n].to_vec()).map_err(|_| "name is not UTF-8")?;
        *p += n + 1;
        Ok(s)
    };
    let mut a = Arc { props: BTreeMap::new(), files: vec![] };
    let mut heads = vec![];
    let mut first = true;
    loop {
        let name = cstr(&mut p)?;
        if b.len() < p + 20 {
            return Err("header cut short".into());
        }
        let u = |o: usize| u32::from_le_bytes(b[p + o..p + o + 4].try_into().unwrap());
        let (method, size) = (u(0), u(16) as usize);
        p += 20;
        if first && method == 0x5665_7273 {
            loop {
                let k = cstr(&mut p)?;
                if k.is_empty() {
                    break;
                }
                let v = cstr(&mut p)?;
                if a.props.insert(k.clone(), v).is_some() {
                    return Err(format!("property {k} twice"));
                }
            }
        } else if name.is_empty() {
            break;
        } else {
            heads.push((name, size));
        }
        first = false;
    }
    for (n, s) in heads {
        if b.len() < p + s {
            return Err("data cut short".into());
        }
        a.files.push((n, b[p..p + s].to_vec()));
        p += s;
    }
    let sum = Sha1::digest(&b[..p]);
    ensure_eq!(&b[p..], &[&[0u8][..], &sum[..]].concat()[..], "trailer");
    Ok(a)
}

// ---------------------------------------------------------------- project space

const CONFIG: &str = "class CfgPatches {\n    class ADDON_NAME {\n        units[] = {};\n        weapons[] = {};\n        requiredVersion = 2;\n        requiredAddons[] = {};\n    };\n};\n";
pub fn config(name: &str) -> String {
    CONFIG.replace("ADDON_NAME", &name.replace(['.', ' '], "_"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Loc {
    Addons,
    Optionals,
}
impl Loc {
    fn dir(self) -> &'static str {
        match self {
            Loc::Addons => "addons",
            Loc::Optionals => "optionals",
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Addon {
    pub loc: Loc,
    pub name: &'static str,
    pub shape: usize,
}
pub const SHAPES: usize = 13;
/// Settings of `addon.toml` and what is in the addon's folder.
struct Shape {
    files: Vec<(String, Vec<u8>)>,
    prefix_file: &'static str,
    rapify: bool,
    rapify_exclude: fn(&str) -> bool,
    exclude: fn(&str) -> bool,
    props: &'static [(&'static str, &'static str)],
}
fn shape(i: usize, name: &str) -> Shape {
    let no = |_: &str| false;
    let mut s = Shape { files: vec![], prefix_file: "$PBOPREFIX$", rapify: true, rapify_exclude: no, exclude: no, props: &[] };
    let mut f: Vec<(&str, String)> = vec![("config.cpp", config(name))];
    match i {
        0 => {}
        1 => {
            f.push(("functions/fn_a.sqf", "x = 1;\ny = x + 2;\n".into()));
            f.push(("functions/inc.inc.sqf", "z = 3;\n".into()));
            f.push(("script_component.hpp", "#define COMPONENT main\n".into()));
            f.push(("readme.md", "text".into()));
        }
        2 => {
            f.push(("config.bin", "prebuilt".into()));
            f.push(("data/a.bin", "raw".into()));
            f.push(("empty.txt", String::new()));
        }
        3 => {
            f.push(("sub/config.cpp", "class CfgSub { value = 1; };\n".into()));
            f.push(("sub/x.rvmat", "ambient[] = {1,1,1,1};\n".into()));
            f.push(("mission/description.ext", "respawn = 3;\n".into()));
            f.push(("other.cpp", "text = \"a\";\n".into()));
        }
        4 => {
            s.rapify = false;
            f.push(("addon.toml", "[rapify]\nenabled = false\n".into()));
            f.push(("a.rvmat", "ambient[] = {1,1,1,1};\n".into()));
        }
        5 => {
            f.push(("addon.toml", "[rapify]\nexclude = [\"mission/**/description.ext\", \"*.rvmat\", \"deep/?.cpp\"]\n[files]\nexclude = [\"data/*.psd\", \"secret/**/*\", \"one.txt\"]\n[properties]\niso = \"14001\"\nauthor = \"addon\"\n".into()));
            for n in ["mission/description.ext", "mission/m/n/description.ext", "description.ext", "a.rvmat", "sub/b.rvmat", "deep/x.cpp", "deep/xy.cpp"] {
                f.push((n, "respawn = 3;\n".into()));
            }
            for n in ["data/x.psd", "data/sub/y.psd", "x.psd", "data/x.paa", "secret/y/z.txt", "secret/top.txt", "one.txt", "sub/one.txt"] {
                f.push((n, format!("content of {n}")));
            }
            s.rapify_exclude = |n| (n.starts_with("mission/") && n.ends_with("/description.ext")) || n == "a.rvmat" || n == "deep/x.cpp";
            s.exclude = |n| (n.starts_with("data/") && n.ends_with(".psd")) || n.starts_with("secret/") || n == "one.txt";
            s.props = &[("iso", "14001"), ("author", "addon")];
        }
        6 => {
            f.push(("Data/My File.TXT", "mixed case".into()));
            f.push(("a/b/c/d.txt", "deep".into()));
            f.push(("a/addon.toml", "[files]\nexclude=[\"*\"]\n".into()));
            f.push((".hidden", "dot".into()));
        }
        7 => {
            f[0].1 = format!("#pragma hemtt flag pe23_ignore_has_include\n#if __has_include(\"x.hpp\")\n#endif\n{}", config(name));
        }
        8 => {
            f[0].1 = format!("#include \"\\x\\cba\\addons\\main\\script_macros_common.hpp\"\n#include \"local.hpp\"\n{}class CfgX {{ v = CBA_VALUE; l = LOCAL; }};\n", config(name));
            f.push(("local.hpp", "#define LOCAL 7\n".into()));
        }
        9 => {
            f.clear();
            f.push(("data/t.paa", "texture".into()));
            s.prefix_file = "$PREFIX$";
        }
        10 => {
            f.push(("stringtable.xml", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"x\"><Package name=\"p\"><Key ID=\"STR_p_a\"><English>a</English></Key></Package></Project>\n".into()));
            s.prefix_file = "pboprefix.txt";
        }
        11 => {
            // two files whose names differ by the extension the compiler produces
            f.push(("fn.sqf", "a = 1;\n".into()));
            f.push(("fn.sqfc", "old".into()));
            f.push(("FN2.SQF", "b = 2;\n".into()));
            s.prefix_file = "$PBOPREFIX$.txt";
        }
        _ => {
            f.push(("x.txt", "x".into()));
            f.push(("addons/x/y.txt", "nested".into()));
            f.push(("sub/$PBOPREFIX$", format!("z\\p\\other\\{name}")));
            f.push(("sub/pboprefix.txt.txt", "z\\p\\text".into()));
            f.push((".vscode/settings.json", "{}".into()));
            s.prefix_file = "$PBOPREFIX$";
        }
    }
    s.files = f.into_iter().map(|(n, c)| (n.to_string(), c.into_bytes())).collect();
    s
}
fn prefix_of(a: &Addon) -> String {
    format!("z\\p\\{}\\{}", a.loc.dir(), a.name)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Conf(pub usize);
pub const CONFS: usize = 8;
struct ConfV {
    toml: String,
    prefix: &'static str,
    version: &'static str,
    git: bool,
    include: fn(&str) -> bool,
    /// path within the project
    exclude: fn(&str) -> bool,
    props: &'static [(&'static str, &'static str)],
    folders: bool,
    folder: Option<&'static str>,
    authority: Option<&'static str>,
    sign: bool,
    archive: bool,
    dev_exclude: &'static [&'static str],
    hook: Option<(&'static str, &'static str)>,
}
fn default_include(n: &str) -> bool {
    ["mod.cpp", "meta.cpp", "LICENSE", "logo_ca.paa", "logo_co.paa"].contains(&n)
}
fn conf(c: Conf) -> ConfV {
    let mut v = ConfV {
        toml: String::new(),
        prefix: "p",
        version: "1.2.3",
        git: false,
        include: default_include,
        exclude: |_| false,
        props: &[],
        folders: true,
        folder: None,
        authority: None,
        sign: true,
        archive: true,
        dev_exclude: &[],
        hook: None,
    };
    let mut version = "major = 1\nminor = 2\npatch = 3\ngit_hash = 0\n";
    let mut rest = "";
    match c.0 {
        0 => {}
        1 => {
            version = "major = 1\nminor = 2\npatch = 3\nbuild = 4\ngit_hash = 0\n";
            v.version = "1.2.3.4";
            rest = "[files]\ninclude = [\"docs/**\", \"*.txt\", \"/tools/?.py\"]\nexclude = [\"*.md\", \"addons/a/data/x.paa\", \"addons/*/one.txt\", \"/addons/a/x.txt\"]\n[properties]\nauthor = \"me\"\nurl = \"http://x\"\n";
            v.include = |n| default_include(n) || n.starts_with("docs/") || (n.ends_with(".txt") && !n.contains('/')) || n == "tools/a.py";
            v.exclude = |n| n.ends_with(".md") || n == "addons/a/data/x.paa" || (n.starts_with("addons/") && n.ends_with("/one.txt")) || n == "addons/a/x.txt";
            v.props = &[("author", "me"), ("url", "http://x")];
        }
        2 => {
            rest = "[hemtt.build]\noptional_mod_folders = false\n[hemtt.release]\nfolder = \"rel\"\n[signing]\nauthority = \"auth\"\nversion = 2\n";
            v.folders = false;
            v.folder = Some("rel");
            v.authority = Some("auth");
        }
        3 => v.prefix = "my.mod",
        4 => {
            rest = "[hemtt.release]\nsign = false\narchive = false\n";
            v.sign = false;
            v.archive = false;
        }
        5 => {
            rest = "[hemtt.dev]\nexclude = [\"addons/b\"]\n[hemtt.release]\nfolder = \"my folder\"\n";
            v.dev_exclude = &["addons/b"];
            v.folder = Some("my folder");
        }
        6 => {
            v.git = true;
            version = "major = 1\nminor = 2\npatch = 3\ngit_hash = 5\n";
        }
        _ => {
            v.hook = Some((
                ".hemtt/hooks/pre_build/10_gen.rhai",
                "let d = HEMTT_VFS.join(\"addons\").join(\"a\");\nif d.exists() { d.join(\"gen.txt\").create_file().write(\"made by \" + HEMTT.project().version().to_string()); d.join(\"gen.sqf\").create_file().write(\"g = 1;\"); if d.join(\"x.txt\").exists() { d.join(\"x.txt\").remove_file(); } }\nHEMTT_VFS.join(\"mod.cpp\").create_file().write(\"new mod\");\n",
            ));
        }
    }
    v.toml = format!("name = \"Project\"\nprefix = \"{}\"\nauthor = \"a\"\n[version]\n{version}{rest}", v.prefix);
    v
}
/// All files of a project.
pub fn project(addons: &[Addon], c: Conf) -> Files {
    let cv = conf(c);
    let mut f = files(&[
        ("mod.cpp", "name = \"m\";"),
        ("LICENSE", "license"),
        ("logo_ca.paa", "logo"),
        ("docs/readme.md", "readme"),
        ("docs/img/x.png", "image"),
        ("notes.txt", "notes"),
        ("unlisted.dat", "unlisted"),
        ("tools/a.py", "py"),
        ("tools/ab.py", "py2"),
        ("include/x/cba/addons/main/script_macros_common.hpp", "#define CBA_VALUE 42\n"),
        ("addons/ignore.txt", "not an addon"),
    ]);
    f.insert(".hemtt/project.toml".into(), cv.toml.clone().into_bytes());
    if let Some((n, s)) = cv.hook {
        f.insert(n.into(), s.into());
    }
    for a in addons {
        let s = shape(a.shape, a.name);
        let d = format!("{}/{}", a.loc.dir(), a.name);
        for (n, b) in &s.files {
            f.insert(format!("{d}/{n}"), b.clone());
        }
        f.insert(format!("{d}/{}", s.prefix_file), prefix_of(a).into_bytes());
    }
    f
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cmd {
    Check,
    Build,
    BuildNoRap,
    BuildNoBin,
    BuildJustA,
    Release,
    ReleaseNoSign,
    ReleaseNoArchive,
    Dev,
    DevB,
    DevAll,
    DevNoRap,
    DevJustA,
}
pub const CMDS: &[Cmd] = &[Cmd::Check, Cmd::Build, Cmd::BuildNoRap, Cmd::BuildNoBin, Cmd::BuildJustA, Cmd::Release, Cmd::ReleaseNoSign, Cmd::ReleaseNoArchive, Cmd::Dev, Cmd::DevB, Cmd::DevAll, Cmd::DevNoRap, Cmd::DevJustA];
impl Cmd {
    pub fn args(self) -> Vec<&'static str> {
        match self {
            Cmd::Check => vec!["check"],
            Cmd::Build => vec!["build"],
            Cmd::BuildNoRap => vec!["build", "--no-rap"],
            Cmd::BuildNoBin => vec!["build", "--no-bin"],
            Cmd::BuildJustA => vec!["build", "--just", "A"],
            Cmd::Release => vec!["release"],
            Cmd::ReleaseNoSign => vec!["release", "--no-sign"],
            Cmd::ReleaseNoArchive => vec!["release", "--no-archive"],
            Cmd::Dev => vec!["dev"],
            Cmd::DevB => vec!["dev", "-o", "b"],
            Cmd::DevAll => vec!["dev", "-O"],
            Cmd::DevNoRap => vec!["dev", "--no-rap"],
            Cmd::DevJustA => vec!["dev", "--just", "a", "-O"],
        }
    }
    pub fn mode(self) -> &'static str {
        match self {
            Cmd::Check => "check",
            Cmd::Build | Cmd::BuildNoRap | Cmd::BuildNoBin | Cmd::BuildJustA => "build",
            Cmd::Release | Cmd::ReleaseNoSign | Cmd::ReleaseNoArchive => "release",
            _ => "dev",
        }
    }
    fn dev(self) -> bool {
        self.mode() == "dev"
    }
    fn just(self) -> bool {
        matches!(self, Cmd::BuildJustA | Cmd::DevJustA)
    }
    fn rap(self) -> bool {
        !matches!(self, Cmd::BuildNoRap | Cmd::DevNoRap)
    }
}

// ---------------------------------------------------------------- model

/// What a produced file must contain.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Want {
    Bytes(Vec<u8>),
    /// result of the config or script compiler on this source
    Rapified(String),
    Compiled(String),
}
struct WantPbo {
    prefix: String,
    props: BTreeMap<String, String>,
    files: BTreeMap<String, Want>,
    /// archives signed with the key of this authority
    authority: String,
    key: String,
}
struct Model {
    fails: bool,
    pbos: BTreeMap<String, WantPbo>,
    copies: BTreeMap<String, Vec<u8>>,
    links: BTreeMap<String, String>,
    keys: BTreeSet<String>,
    zip: bool,
}
fn model(addons: &[Addon], c: Conf, cmd: Cmd, src: &Files, git: Option<&str>) -> Model {
    let cv = conf(c);
    let version = git.map_or(cv.version.to_string(), |g| format!("{}-{}", cv.version, &g[..5]));
    let folder = cv.folder.unwrap_or(cv.prefix);
    let mut m = Model { fails: false, pbos: BTreeMap::new(), copies: BTreeMap::new(), links: BTreeMap::new(), keys: BTreeSet::new(), zip: false };
    let chosen: Vec<&Addon> = addons
        .iter()
        .filter(|a| {
            if cmd.just() && a.name.to_lowercase() != "a" {
                return false;
            }
            if cmd.dev() {
                let d = format!("{}/{}", a.loc.dir(), a.name);
                if a.loc == Loc::Optionals && !matches!(cmd, Cmd::DevAll | Cmd::DevJustA) && !(cmd == Cmd::DevB && a.name == "b") {
                    return false;
                }
                return !cv.dev_exclude.contains(&d.as_str());
            }
            true
        })
        .collect();
    if cmd == Cmd::DevB && !chosen.iter().any(|a| a.name == "b") {
        m.fails = true;
        return m;
    }
    if cmd == Cmd::Check {
        return m;
    }
    let release = cmd.mode() == "release";
    let sign = release && cv.sign && cmd != Cmd::ReleaseNoSign;
    m.zip = release && cv.archive && cmd != Cmd::ReleaseNoArchive;
    let authority = format!("{}_{version}", cv.authority.unwrap_or(cv.prefix));
    if sign {
        m.keys.insert(format!("keys/{authority}.bikey"));
    }
    for a in &chosen {
        let s = shape(a.shape, a.name);
        let d = format!("{}/{}", a.loc.dir(), a.name);
        let pbo = format!("{}_{}", cv.prefix, a.name);
        let mut auth = authority.clone();
        let mut key = format!("keys/{authority}.bikey");
        let at = if cmd.dev() || a.loc == Loc::Addons {
            format!("addons/{pbo}.pbo")
        } else if cv.folders {
            let base = format!("optionals/@{folder}_{}", a.name);
            auth = format!("{authority}_{pbo}");
            key = format!("{base}/keys/{auth}.bikey");
            format!("{base}/addons/{pbo}.pbo")
        } else {
            format!("optionals/{pbo}.pbo")
        };
        let mut have: BTreeMap<String, Want> = s.files.iter().map(|(n, b)| (n.clone(), Want::Bytes(b.clone()))).collect();
        if cv.hook.is_some() && d == "addons/a" {
            have.insert("gen.txt".into(), Want::Bytes(format!("made by {version}").into_bytes()));
            have.insert("gen.sqf".into(), Want::Bytes(b"g = 1;".to_vec()));
            have.remove("x.txt");
        }
        // compile
        for n in have.keys().cloned().collect::<Vec<_>>() {
            let full = format!("/{d}/{n}");
            let ext = n.rsplit('/').next().unwrap().rsplit_once('.').map_or("", |x| x.1);
            if cmd.rap() && s.rapify && !(s.rapify_exclude)(&n) && !(a.shape == 7 && n == "config.cpp") {
                if ext == "cpp" {
                    have.insert(format!("{}.bin", &n[..n.len() - 4]), Want::Rapified(full.clone()));
                } else if ["rvmat", "ext"].contains(&ext) {
                    have.insert(n.clone(), Want::Rapified(full.clone()));
                }
            }
            if ext == "sqf" && !n.ends_with(".inc.sqf") {
                have.insert(format!("{n}c"), Want::Compiled(full));
            }
        }
        let mut fs = BTreeMap::new();
        for (n, w) in &have {
            let base = n.rsplit('/').next().unwrap();
            if base == "$PBOPREFIX$" || base == "addon.toml" || (base == "config.cpp" && have.contains_key(&format!("{}config.bin", &n[..n.len() - base.len()]))) {
                continue;
            }
            if (s.exclude)(n) || (cv.exclude)(&format!("{d}/{n}")) {
                continue;
            }
            fs.insert(n.replace('/', "\\"), w.clone());
        }
        let mut props: BTreeMap<String, String> = BTreeMap::new();
        props.insert("hemtt".into(), hemtt_version());
        props.insert("version".into(), version.clone());
        props.insert("prefix".into(), prefix_of(a));
        if let Some(g) = git {
            props.insert("git".into(), g.to_string());
        }
        for (k, v) in cv.props.iter().chain(s.props) {
            props.insert(k.to_string(), v.to_string());
        }
        if sign && a.loc == Loc::Optionals && cv.folders {
            m.keys.insert(key.clone());
        }
        m.pbos.insert(at, WantPbo { prefix: prefix_of(a), props, files: fs, authority: if sign { auth } else { String::new() }, key });
        if cmd.dev() {
            m.links.insert(format!("addons/{}", a.name), d);
        }
    }
    for (n, b) in src {
        if !n.starts_with(".hemtt") && (cv.include)(n) {
            m.copies.insert(n.clone(), b.clone());
        }
    }
    if cv.hook.is_some() {
        m.copies.insert("mod.cpp".into(), b"new mod".to_vec());
    }
    m
}
fn hemtt_version() -> String {
    hemtt::Cli::command().get_version().expect("version").to_string()
}

/// The project as the compilers see it.
struct Compiler {
    ws: hemtt_workspace::WorkspacePath,
    config: hemtt_common::config::ProjectConfig,
}
impl Compiler {
    fn new(p: &Proj, c: Conf, src: &Files) -> Self {
        use hemtt_workspace::{LayerType, Workspace};
        let config = hemtt_common::config::ProjectConfig::from_file(&p.root.join(".hemtt/project.toml")).expect("project.toml");
        let mut b = Workspace::builder().physical(&p.root, LayerType::Source);
        if p.root.join("include").is_dir() {
            b = b.physical(&p.root.join("include"), LayerType::Include);
        }
        let ws = b.memory().finish(Some(config.clone()), true, &hemtt_common::config::PDriveOption::Ignore).expect("workspace");
        if conf(c).hook.is_some() && src.keys().any(|n| n.starts_with("addons/a/")) {
            use std::io::Write;
            ws.join("addons/a/gen.sqf").unwrap().create_file().unwrap().write_all(b"g = 1;").unwrap();
        }
        Self { ws, config }
    }
    fn get(&self, w: &Want) -> Result<Vec<u8>, String> {
        match w {
            Want::Bytes(b) => Ok(b.clone()),
            Want::Rapified(p) => {
                use hemtt_config::rapify::Rapify;
                let pr = hemtt_preprocessor::Processor::run(&self.ws.join(p).map_err(|e| e.to_string())?).map_err(|e| format!("{p}: {}", e.1))?;
                let r = hemtt_config::parse(Some(&self.config), &pr).map_err(|_| format!("{p} does not parse"))?;
                let mut o = vec![];
                r.config().rapify(&mut o, 0).map_err(|e| e.to_string())?;
                Ok(o)
            }
            Want::Compiled(p) => {
                let pr = hemtt_preprocessor::Processor::run(&self.ws.join(p).map_err(|e| e.to_string())?).map_err(|e| format!("{p}: {}", e.1))?;
                let db = hemtt_sqf::parser::database::Database::a3_with_workspace(&self.ws, false).map_err(|e| e.to_string())?;
                let s = hemtt_sqf::parser::run(&db, &pr).map_err(|_| format!("{p} does not parse"))?;
                let mut o = vec![];
                s.optimize().compile_to_writer(&pr, &mut o).map_err(|e| e.to_string())?;
                Ok(o)
            }
        }
    }
}

fn dirs_of(files: impl Iterator<Item = String>) -> BTreeSet<String> {
    let mut d = BTreeSet::new();
    for f in files {
        let mut p = f.as_str();
        while let Some((a, _)) = p.rsplit_once('/') {
            d.insert(a.to_string());
            p = a;
        }
    }
    d
}

/// Compares what is on disk after `cmd` with the model.
#[allow(clippy::too_many_arguments)]
fn compare(p: &Proj, c: Conf, cmd: Cmd, src: &Files, m: &Model, git: Option<&str>) -> R {
    let cv = conf(c);
    let out = p.sub(&format!(".hemttout/{}", cmd.mode()));
    let mut want: BTreeSet<String> = m.pbos.keys().cloned().chain(m.copies.keys().cloned()).chain(m.links.keys().cloned()).chain(m.keys.iter().cloned()).collect();
    for (at, w) in &m.pbos {
        if !w.authority.is_empty() {
            want.insert(format!("{at}.{}.bisign", w.authority));
        }
    }
    let have: BTreeSet<String> = out.iter().filter(|(_, n)| **n != Node::Dir).map(|(k, _)| k.clone()).collect();
    ensure_eq!(have, want, "files in .hemttout/{}", cmd.mode());
    let mut dirs = dirs_of(want.iter().cloned());
    if cmd.dev() {
        dirs.insert("addons".into());
    }
    if want.iter().any(|k| k.starts_with("keys/")) {
        dirs.insert("keys".into());
    }
    let have: BTreeSet<String> = out.iter().filter(|(_, n)| **n == Node::Dir).map(|(k, _)| k.clone()).collect();
    ensure_eq!(have, dirs, "folders in .hemttout/{}", cmd.mode());
    let comp = Compiler::new(p, c, src);
    for (at, w) in &m.pbos {
        let Some(Node::File(b)) = out.get(at) else { return Err(format!("{at} is not a file")) };
        let a = read_pbo(b).map_err(|e| format!("{at}: {e}"))?;
        ensure_eq!(a.props, w.props, "properties of {at}");
        let names: Vec<&String> = a.files.iter().map(|f| &f.0).collect();
        let mut wn: Vec<&String> = w.files.keys().collect();
        let mut sn = names.clone();
        sn.sort();
        wn.sort();
        ensure_eq!(sn, wn, "entries of {at}");
        for (n, b) in &a.files {
            let x = comp.get(&w.files[n])?;
            ensure!(b == &x, "{at}: content of {n} is {:?}, expected {:?} ({:?})", clip(&String::from_utf8_lossy(b), 80), clip(&String::from_utf8_lossy(&x), 80), w.files[n]);
        }
        if !w.authority.is_empty() {
            let Some(Node::File(k)) = out.get(&w.key) else { return Err(format!("{} is not a file", w.key)) };
            let Some(Node::File(s)) = out.get(&format!("{at}.{}.bisign", w.authority)) else { return Err("signature is not a file".into()) };
            let k = hemtt_signing::BIPublicKey::read(&mut &k[..]).map_err(|e| e.to_string())?;
            let s = hemtt_signing::BISign::read(&mut &s[..]).map_err(|e| e.to_string())?;
            ensure_eq!(k.authority(), w.authority, "authority of the key for {at}");
            let want_v = if c.0 == 2 { hemtt_common::BISignVersion::V2 } else { hemtt_common::BISignVersion::V3 };
            ensure_eq!(s.version(), want_v, "signature version");
            let mut r = hemtt_pbo::ReadablePbo::from(Cursor::new(b.clone())).map_err(|e| e.to_string())?;
            k.verify(&mut r, &s).map_err(|e| format!("{at}: the signature does not verify: {e}"))?;
        }
        ensure_eq!(w.prefix, w.props["prefix"], "prefix");
    }
    for (at, b) in &m.copies {
        ensure_eq!(out.get(at), Some(&Node::File(b.clone())), "copied file {at}");
    }
    for (at, to) in &m.links {
        ensure_eq!(out.get(at), Some(&Node::Link(p.root.join(to))), "link {at}");
    }
    // archives
    let rel = p.sub("releases");
    if !m.zip {
        ensure!(rel.is_empty(), "releases contains {:?}", rel.keys());
        return Ok(());
    }
    let version = git.map_or(cv.version.to_string(), |g| format!("{}-{}", cv.version, &g[..5]));
    let names = [format!("{}-{version}.zip", cv.prefix), format!("{}-latest.zip", cv.prefix)];
    ensure_eq!(rel.keys().cloned().collect::<Vec<_>>(), names.to_vec(), "release archives");
    ensure_eq!(rel[&names[0]], rel[&names[1]], "the two archives");
    let Node::File(z) = &rel[&names[0]] else { return Err("archive is not a file".into()) };
    let mut z = zip::ZipArchive::new(Cursor::new(z.clone())).map_err(|e| e.to_string())?;
    let mut got = BTreeMap::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| e.to_string())?;
        let n = f.name().to_string();
        if f.is_dir() {
            got.insert(n.trim_end_matches('/').to_string(), Node::Dir);
        } else {
            let mut b = vec![];
            f.read_to_end(&mut b).map_err(|e| format!("{n}: {e}"))?;
            ensure!(got.insert(n.clone(), Node::File(b)).is_none(), "{n} twice in the archive");
        }
    }
    let folder = cv.folder.unwrap_or(cv.prefix);
    let want: BTreeMap<String, Node> = out.into_iter().map(|(k, n)| (format!("@{folder}/{k}"), n)).collect();
    ensure_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "entries of the archive");
    ensure!(got == want, "the archive's contents differ from .hemttout/release");
    Ok(())
}

pub fn git_init(p: &Proj) -> String {
    git_init_at(&p.root)
}
/// Also for a repository that is there already
pub fn git_init_at(root: &Path) -> String {
    // SAFETY: a plain option of the library
    unsafe { git2::opts::set_verify_owner_validation(false).expect("git option") };
    let r = git2::Repository::init(root).expect("git init");
    let sig = git2::Signature::new("n", "e@x", &git2::Time::new(1, 0)).expect("sig");
    let t = r.treebuilder(None).expect("tree").write().expect("write");
    let t = r.find_tree(t).expect("tree");
    let id = r.commit(Some("HEAD"), &sig, &sig, "m", &t, &[]).expect("commit");
    chown_all(root);
    id.to_string()
}

fn h<T: Hash>(t: T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn one(p: &Proj, addons: &[Addon], c: Conf, cmd: Cmd, src: &Files, git: Option<&str>, threads: u32) -> Result<u64, String> {
    let before = p.sources();
    let mut args = cmd.args();
    args.push("--in-test");
    let o = p.run_env(&args, &[], threads);
    let m = model(addons, c, cmd, src, git);
    ensure_eq!(o.code != 0, m.fails, "exit code {} of {args:?}; {}", o.code, clip(&o.text(), 1500));
    ensure!(p.sources() == before, "{args:?} changed the sources: {:?}", diff(&before, &p.sources()));
    if !m.fails {
        compare(p, c, cmd, src, &m, git).map_err(|e| format!("{args:?}: {e}"))?;
    }
    Ok(h((cmd.mode(), m.pbos.keys().collect::<Vec<_>>(), m.pbos.values().map(|w| w.files.keys().collect::<Vec<_>>()).collect::<Vec<_>>(), m.keys, m.zip, o.code)))
}
pub fn diff(a: &BTreeMap<String, Node>, b: &BTreeMap<String, Node>) -> Vec<String> {
    a.keys().chain(b.keys()).collect::<BTreeSet<_>>().into_iter().filter(|k| a.get(*k) != b.get(*k)).cloned().collect()
}

fn addon_space() -> Vec<Addon> {
    let mut v = vec![];
    for shape in 0..SHAPES {
        for loc in [Loc::Addons, Loc::Optionals] {
            v.push(Addon { loc, name: if loc == Loc::Addons { "a" } else { "b" }, shape });
        }
    }
    v
}

pub fn x04(ck: &Ck) {
    ck.assume("the contents of compiled configs and scripts are judged by D01-D05 and X01-X03; here they must equal what the compilers make of the same file in the same project");
    ck.assume("binarization needs Arma 3 Tools, which are not here: models, animations and terrains are outside these projects");
    ck.hang_secs(300);
    let run = |addons: &[Addon], c: Conf, cmd: Cmd, threads: u32| -> Result<u64, String> {
        let src = project(addons, c);
        let p = Proj::new(&src);
        let git = conf(c).git.then(|| git_init(&p));
        one(&p, addons, c, cmd, &src, git.as_deref(), threads)
    };
    // one addon, everything
    let mut cases = vec![];
    for a in addon_space() {
        for c in 0..CONFS {
            for cmd in CMDS {
                if ck.quick() && cmd.mode() == "release" && *cmd != Cmd::ReleaseNoSign && a.shape > 2 && c > 2 {
                    continue;
                }
                cases.push((vec![a], Conf(c), *cmd));
            }
        }
    }
    ck.explore("one-addon", "every addon shape x location x project configuration x command: the output folder, archives, signatures, keys and release zips are exactly what the project prescribes, and no source file changes", cases, |(a, c, cmd), o| {
        o.steps(1);
        o.state(run(a, *c, *cmd, 1)?);
        Ok(())
    });
    let ns: &[&'static str] = &["a", "b", "A", "a.x", "a.y", "a b", "main_extra"];
    let mut cases = vec![];
    for (i, n) in ns.iter().enumerate() {
        for m in &ns[i + 1..] {
            for l in [(Loc::Addons, Loc::Addons), (Loc::Addons, Loc::Optionals), (Loc::Optionals, Loc::Optionals)] {
                if n.to_lowercase() == m.to_lowercase() {
                    continue;
                }
                for c in if ck.quick() { vec![0, 2] } else { (0..CONFS).collect() } {
                    for cmd in [Cmd::Build, Cmd::ReleaseNoSign, Cmd::Dev, Cmd::DevAll, Cmd::DevB, Cmd::BuildJustA, Cmd::Release] {
                        if cmd == Cmd::Release && ck.quick() && i > 0 {
                            continue;
                        }
                        cases.push((vec![Addon { loc: l.0, name: n, shape: 1 }, Addon { loc: l.1, name: m, shape: 0 }], Conf(c), cmd));
                    }
                }
            }
        }
    }
    ck.explore("names", "every pair of addon names and locations x configurations x commands", cases, |(a, c, cmd), o| {
        o.steps(1);
        o.state(run(a, *c, *cmd, 1)?);
        Ok(())
    });
    let mut cases = vec![];
    for i in 0..SHAPES {
        for j in 0..SHAPES {
            for l in [Loc::Addons, Loc::Optionals] {
                let cs: Vec<usize> = if ck.quick() { vec![1] } else { vec![0, 1, 2, 5, 7] };
                for c in cs {
                    for cmd in ck.t(vec![Cmd::Build], vec![Cmd::Build, Cmd::ReleaseNoSign, Cmd::DevAll, Cmd::BuildJustA]) {
                        cases.push((vec![Addon { loc: Loc::Addons, name: "a", shape: i }, Addon { loc: l, name: "b", shape: j }], Conf(c), cmd));
                    }
                }
            }
        }
    }
    ck.explore("two-addons", "every pair of addon shapes x location of the second x configurations x commands, on 3 threads: no addon influences another", cases, |(a, c, cmd), o| {
        o.steps(1);
        o.state(run(a, *c, *cmd, 3)?);
        Ok(())
    });
}
