//! X14: the language server (`hls`), driven over its socket like an editor does it.

use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::checks::proj::{chown_all, files, Files, Proj};
use crate::fw::{permutations, scratch, seqs, subsets, Ck};
use crate::{ensure, ensure_eq};

fn h<T: std::hash::Hash>(t: T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// The server, where the unprivileged user can execute it.
fn exe() -> &'static PathBuf {
    static EXE: OnceLock<PathBuf> = OnceLock::new();
    EXE.get_or_init(|| {
        let to = scratch().join("hls-under-test");
        let from = std::env::current_exe().expect("exe").with_file_name("hls");
        std::fs::copy(&from, &to).unwrap_or_else(|e| panic!("{from:?}: {e}"));
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&to, std::fs::Permissions::from_mode(0o755)).expect("chmod");
        to
    })
}

/// For each file: the codes and lines shown in it.
type Shown = BTreeMap<String, BTreeSet<(String, u64)>>;

#[derive(Default)]
struct Seen {
    shown: Shown,
    replies: BTreeMap<u64, Value>,
    initialized: bool,
    closed: bool,
    /// When the last message came
    last: Option<Instant>,
}

struct Ls {
    child: Child,
    out: TcpStream,
    seen: Arc<(Mutex<Seen>, Condvar)>,
    id: u64,
    log: PathBuf,
}
fn url(p: &Path) -> String {
    let mut u = String::from("file://");
    for b in p.to_string_lossy().bytes() {
        if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) { u.push(b as char) } else { u += &format!("%{b:02X}") }
    }
    u
}
fn folder(p: &Path) -> Value {
    json!({"uri": url(p), "name": p.file_name().unwrap().to_string_lossy()})
}
fn send(s: &mut TcpStream, v: &Value) -> Result<(), String> {
    let t = v.to_string();
    s.write_all(format!("Content-Length: {}\r\n\r\n{t}", t.len()).as_bytes()).map_err(|e| format!("the server is gone: {e}"))
}
impl Ls {
    fn start(base: &Path, folders: &[&Path]) -> Result<Self, String> {
        Self::start_on(2, base, folders)
    }
    fn start_on(threads: usize, base: &Path, folders: &[&Path]) -> Result<Self, String> {
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
        let port = l.local_addr().map_err(|e| e.to_string())?.port();
        let log = base.join("hls.log");
        let f = std::fs::File::create(&log).map_err(|e| e.to_string())?;
        let child = Command::new(exe())
            .arg(port.to_string())
            .current_dir(base)
            .env_clear()
            .env("HOME", base)
            .env("TMPDIR", base.join("tmp"))
            .env("RUST_BACKTRACE", "0")
            .env("TOKIO_WORKER_THREADS", threads.to_string())
            .stdin(Stdio::null())
            .stdout(f.try_clone().map_err(|e| e.to_string())?)
            .stderr(f)
            .uid(65534)
            .gid(65534)
            .spawn()
            .map_err(|e| e.to_string())?;
        let mut guard = Kill(Some(child));
        l.set_nonblocking(true).map_err(|e| e.to_string())?;
        let t0 = Instant::now();
        let s = loop {
            match l.accept() {
                Ok((s, _)) => break s,
                Err(_) if t0.elapsed() < Duration::from_secs(60) => std::thread::sleep(Duration::from_millis(2)),
                Err(e) => return Err(format!("the server does not connect: {e}")),
            }
        };
        s.set_nonblocking(false).map_err(|e| e.to_string())?;
        s.set_nodelay(true).ok();
        let seen: Arc<(Mutex<Seen>, Condvar)> = Arc::default();
        let list: Vec<Value> = folders.iter().map(|f| folder(f)).collect();
        let (r, mut w, se) = (s.try_clone().map_err(|e| e.to_string())?, s.try_clone().map_err(|e| e.to_string())?, seen.clone());
        std::thread::spawn(move || {
            let mut r = BufReader::new(r);
            loop {
                let mut n = 0usize;
                loop {
                    let mut line = String::new();
                    if r.read_line(&mut line).unwrap_or(0) == 0 {
                        se.0.lock().unwrap().closed = true;
                        se.1.notify_all();
                        return;
                    }
                    if line.trim().is_empty() { break; }
                    if let Some(x) = line.to_lowercase().strip_prefix("content-length:") { n = x.trim().parse().unwrap_or(0); }
                }
                let mut b = vec![0; n];
                if r.read_exact(&mut b).is_err() { continue; }
                let Ok(v) = serde_json::from_slice::<Value>(&b) else { continue };
                let mut s = se.0.lock().unwrap();
                s.last = Some(Instant::now());
                match (v["method"].as_str(), v.get("id")) {
                    (Some("workspace/workspaceFolders"), Some(id)) => {
                        let _ = send(&mut w, &json!({"jsonrpc": "2.0", "id": id, "result": list}));
                        s.initialized = true;
                    }
                    (Some("textDocument/publishDiagnostics"), _) => {
                        let p = &v["params"];
                        let d: BTreeSet<(String, u64)> = p["diagnostics"].as_array().map(|a| a.iter().map(|d| (d["code"].as_str().unwrap_or("?").to_string(), d["range"]["start"]["line"].as_u64().unwrap_or(9999) + 1)).collect()).unwrap_or_default();
                        let u = p["uri"].as_str().unwrap_or("").to_string();
                        if d.is_empty() { s.shown.remove(&u); } else { s.shown.insert(u, d); }
                    }
                    (None, Some(id)) => { s.replies.insert(id.as_u64().unwrap_or(0), v["result"].clone()); }
                    _ => {}
                }
                drop(s);
                se.1.notify_all();
            }
        });
        let child = guard.0.take().unwrap();
        let mut ls = Self { child, out: s, seen, id: 0, log };
        ls.request("initialize", json!({"processId": null, "rootUri": null, "capabilities": {"workspace": {"workspaceFolders": true}}}))?;
        ls.notify("initialized", json!({}))?;
        ls.wait(|s| s.initialized.then_some(()))?;
        Ok(ls)
    }
    fn notify(&mut self, m: &str, p: Value) -> Result<(), String> {
        send(&mut self.out, &json!({"jsonrpc": "2.0", "method": m, "params": p}))
    }
    fn request(&mut self, m: &str, p: Value) -> Result<Value, String> {
        self.id += 1;
        let id = self.id;
        send(&mut self.out, &json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p}))?;
        self.wait(|s| s.replies.get(&id).cloned())
    }
    fn tail(&self) -> String {
        let t = std::fs::read_to_string(&self.log).unwrap_or_default();
        t.lines().filter(|l| l.contains("panicked") || l.contains("ERROR")).take(3).collect::<Vec<_>>().join(" / ")
    }
    fn wait<T>(&self, f: impl Fn(&Seen) -> Option<T>) -> Result<T, String> {
        let end = Instant::now() + Duration::from_secs(30);
        let mut s = self.seen.0.lock().unwrap();
        loop {
            if let Some(t) = f(&s) { return Ok(t); }
            if s.closed { drop(s); return Err(format!("the server ended: {}", self.tail())); }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() { drop(s); return Err(format!("no answer of the server within 30 s: {}", self.tail())); }
            s = self.seen.1.wait_timeout(s, left).unwrap().0;
        }
    }
    fn save(&mut self, p: &Path) -> Result<(), String> {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": url(p)}}))
    }
    fn folders(&mut self, added: &[&Path], removed: &[&Path]) -> Result<(), String> {
        let l = |v: &[&Path]| v.iter().map(|f| folder(f)).collect::<Vec<_>>();
        self.notify("workspace/didChangeWorkspaceFolders", json!({"event": {"added": l(added), "removed": l(removed)}}))
    }
    /// What is shown becomes `want` and stays so until nothing came for a while.
    fn shows(&self, want: &Shown, quiet: u64) -> Result<(), String> {
        let end = Instant::now() + Duration::from_secs(20);
        let quiet = Duration::from_millis(quiet);
        let mut since = Instant::now();
        let mut s = self.seen.0.lock().unwrap();
        loop {
            if s.closed { drop(s); return Err(format!("the server ended: {}", self.tail())); }
            let now = Instant::now();
            if s.shown != *want || s.last.is_some_and(|l| l > since) { since = now; }
            if s.shown == *want && now.duration_since(since) >= quiet { return Ok(()); }
            if now >= end { let g = s.shown.clone(); drop(s); return Err(format!("shows {g:?}, expected {want:?} {}", self.tail())); }
            s = self.seen.1.wait_timeout(s, Duration::from_millis(5).max(quiet / 4)).unwrap().0;
        }
    }
}
impl Drop for Ls {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = self.out.shutdown(std::net::Shutdown::Both);
    }
}
struct Kill(Option<Child>);
impl Drop for Kill {
    fn drop(&mut self) {
        if let Some(c) = &mut self.0 { let _ = c.kill(); let _ = c.wait(); }
    }
}

// ---------------------------------------------------------------- what is wrong with which contents
type D = (&'static str, &'static str, u64);
/// contents of a config, and what is wrong with it: (file, code, line); "." is the config itself
const A: [(&str, &[D]); 6] = [
    ("#include \"..\\shared.hpp\"\nclass A { x = 1; };\n", &[]),
    ("#include \"..\\shared.hpp\"\nclass A {\n x = 1;\n x = 2;\n};\n", &[(".", "L-C02", 3), (".", "L-C02", 4)]),
    ("#include \"..\\shared.hpp\"\n\nclass A { x[] = 1; };\n", &[(".", "L-C07", 3)]),
    ("#include \"..\\shared.hpp\"\n#ifdef X\n", &[(".", "PE18", 2)]),
    ("class A { x = 1; };\n", &[]),
    ("class A {};\n}\n", &[(".", "CCHU", 2)]),
];
const B: [(&str, &[D]); 3] = [
    ("#include \"..\\shared.hpp\"\nclass B {};\n", &[]),
    ("class B {};\nclass b {};\n#include \"..\\shared.hpp\"\n", &[(".", "L-C03", 1), (".", "L-C03", 2)]),
    ("class B {};\n", &[]),
];
const S: [(&str, &[D]); 3] = [
    ("#define V 1\n", &[]),
    ("\nclass S {\n y = 1;\n y = 2;\n};\n", &[("s", "L-C02", 3), ("s", "L-C02", 4)]),
    ("\n#include \"none.hpp\"\n", &[("s", "PE12", 2)]),
];
/// What is shown for a folder with these contents.
fn expected(root: &Path, a: usize, b: usize, s: usize) -> Shown {
    let mut w = Shown::new();
    for (f, (text, own)) in [("a", A[a]), ("b", B[b])] {
        let includes = text.contains("#include");
        let mut l: Vec<D> = own.to_vec();
        if includes {
            if s == 2 { l = S[2].1.to_vec(); } else if !own.iter().any(|d| d.1.starts_with("PE")) { l.extend(S[s].1); }
        }
        for (at, code, line) in l {
            let p = if at == "s" { root.join("addons/shared.hpp") } else { root.join(format!("addons/{f}/config.cpp")) };
            w.entry(url(&p)).or_default().insert((code.to_string(), line));
        }
    }
    w
}
fn write(p: &Path, t: &str) -> Result<(), String> {
    std::fs::write(p, t).map_err(|e| e.to_string())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev { Save(usize), Held(usize), Late(usize), Shared(usize), Remove, Add }
/// A file that is read only once it is released
struct Gate { at: PathBuf, link: PathBuf, open: Mutex<Option<std::fs::File>> }
impl Gate {
    fn new(p: &Proj, i: usize) -> Result<Self, String> {
        let (at, link) = (p.root.join(format!("addons/held{i}.hpp")), p.base().join(format!("tmp/held{i}")));
        let c = std::ffi::CString::new(at.to_string_lossy().as_bytes()).map_err(|e| e.to_string())?;
        // SAFETY: a terminated path
        if unsafe { libc::mkfifo(c.as_ptr(), 0o644) } != 0 { return Err(format!("mkfifo {at:?}")); }
        std::fs::hard_link(&at, &link).map_err(|e| e.to_string())?;
        chown_all(p.base());
        Ok(Self { at, link, open: Mutex::new(None) })
    }
    /// Whether a reader waits in front of it
    fn reader(&self) -> bool {
        use std::os::unix::fs::OpenOptionsExt;
        let mut o = self.open.lock().unwrap();
        if o.is_none() { *o = std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&self.link).ok(); }
        o.is_some()
    }
    /// Waits for a reader, which may not come as long as another is held
    fn arrives(&self) {
        let t0 = Instant::now();
        while !self.reader() && t0.elapsed() < Duration::from_millis(300) { std::thread::sleep(Duration::from_millis(2)); }
    }
    fn release(&self) -> Result<(), String> {
        let new = self.link.with_extension("new");
        write(&new, "\n")?;
        std::fs::rename(&new, &self.at).map_err(|e| e.to_string())?;
        // one that came just now, too
        let t0 = Instant::now();
        while !self.reader() && t0.elapsed() < Duration::from_millis(30) { std::thread::sleep(Duration::from_millis(2)); }
        if let Some(mut f) = self.open.lock().unwrap().take() { f.write_all(b"\n").map_err(|e| e.to_string())?; }
        Ok(())
    }
}

pub fn x14(ck: &Ck) {
    ck.assume("the editor waits for the answer to one event before the next; what an event leads to is shown within 20 s; the files of a folder do not appear or disappear while it is open; scripts are UTF-8 and their commands in the case of the wiki; two threads of the server");
    #[derive(Clone, Copy, Debug)]
    enum Op { A(usize), B(usize), S(usize) }
    use Op::*;
    let ops = [A(0), A(1), A(2), A(3), A(4), A(5), B(0), B(1), S(0), S(1), S(2)];
    ck.explore("saves", "every sequence of saving one of the two configs and the file both include, with six, two and three contents, up to the bound: after each, what is shown in each file is what is wrong with the current contents", seqs(&ops, 1, ck.t(2, 3)), |v, o| {
        let p = Proj::new(&files(&[("addons/a/config.cpp", self::A[1].0), ("addons/b/config.cpp", self::B[0].0), ("addons/shared.hpp", self::S[0].0)]));
        let mut ls = Ls::start(p.base(), &[&p.root])?;
        let (mut a, mut b, mut s) = (1, 0, 0);
        ls.shows(&expected(&p.root, a, b, s), 40).map_err(|e| format!("at first: {e}"))?;
        for (n, x) in v.iter().enumerate() {
            let (f, t) = match *x { A(i) => { a = i; ("addons/a/config.cpp", self::A[i].0) } B(i) => { b = i; ("addons/b/config.cpp", self::B[i].0) } S(i) => { s = i; ("addons/shared.hpp", self::S[i].0) } };
            write(&p.root.join(f), t)?;
            ls.save(&p.root.join(f))?;
            ls.shows(&expected(&p.root, a, b, s), if n + 1 == v.len() { 120 } else { 50 }).map_err(|e| format!("after {:?}: {e}", &v[..=n]))?;
        }
        o.steps(v.len() as u64 + 1);
        o.state(h((a, b, s)));
        Ok(())
    });
    // without waiting
    ck.explore("bursts", "every sequence of two or three saves of one or several files that the editor does not wait for: in the end what is shown is what is wrong with the current contents", seqs(&[A(0), A(1), A(5), S(0), S(1), S(2)], 2, ck.t(2, 3)), |v, o| {
        let p = Proj::new(&files(&[("addons/a/config.cpp", self::A[1].0), ("addons/b/config.cpp", self::B[0].0), ("addons/shared.hpp", self::S[0].0)]));
        let mut ls = Ls::start(p.base(), &[&p.root])?;
        let (mut a, mut s) = (1, 0);
        ls.shows(&expected(&p.root, a, 0, s), 40).map_err(|e| format!("at first: {e}"))?;
        for x in v {
            let (f, t) = match *x { A(i) => { a = i; ("addons/a/config.cpp", self::A[i].0) } S(i) => { s = i; ("addons/shared.hpp", self::S[i].0) } B(_) => continue };
            write(&p.root.join(f), t)?;
            ls.save(&p.root.join(f))?;
        }
        ls.shows(&expected(&p.root, a, 0, s), 150).map_err(|e| format!("after {v:?} at once: {e}"))?;
        o.steps(v.len() as u64 + 1);
        o.state(h((a, s)));
        Ok(())
    });
    // includes of includes
    let fs = ["config.cpp", "one.hpp", "two.hpp", "three.hpp"];
    let mut edits = vec![];
    for f in 0..4 { for inc in subsets(&(f + 1..4).collect::<Vec<_>>(), 0, 3) { for bad in [false, true] { edits.push((f, inc.clone(), bad)); } } }
    ck.explore("includes", "every one and every two saves of a config and three files, each including any of the ones behind it, with and without a defect: what is shown is what is wrong in the files that are included now", seqs(&edits, 1, ck.t(2, 2)), |v, o| {
        let text = |f: usize, inc: &[usize], bad: bool| {
            let mut t: String = inc.iter().map(|i| format!("#include \"{}\"\n", fs[*i])).collect();
            for _ in inc.len()..4 { t.push('\n'); }
            t += &format!("class C{f} {{\n x = 1;\n{} = 2;\n}};\n", if bad { " x" } else { " y" });
            format!("#ifndef G{f}\n#define G{f}\n{t}#endif\n")
        };
        let mut st: Vec<(Vec<usize>, bool)> = vec![(vec![1, 2], false), (vec![], false), (vec![3], false), (vec![], true)];
        let p = Proj::new(&files(&[]));
        std::fs::create_dir_all(p.root.join("addons/a")).map_err(|e| e.to_string())?;
        let at = |f: usize| p.root.join("addons/a").join(fs[f]);
        for (f, (i, b)) in st.iter().enumerate() { write(&at(f), &text(f, i, *b))?; }
        chown_all(p.base());
        let want = |st: &[(Vec<usize>, bool)]| {
            let mut w = Shown::new();
            let (mut todo, mut seen) = (vec![0], BTreeSet::new());
            while let Some(f) = todo.pop() {
                if !seen.insert(f) { continue; }
                todo.extend(&st[f].0);
                if st[f].1 { w.insert(url(&at(f)), [("L-C02".to_string(), 8), ("L-C02".to_string(), 9)].into()); }
            }
            w
        };
        let mut ls = Ls::start(p.base(), &[&p.root])?;
        ls.shows(&want(&st), 40).map_err(|e| format!("at first: {e}"))?;
        for (n, (f, i, b)) in v.iter().enumerate() {
            st[*f] = (i.clone(), *b);
            write(&at(*f), &text(*f, i, *b))?;
            ls.save(&at(*f))?;
            ls.shows(&want(&st), if n + 1 == v.len() { 80 } else { 40 }).map_err(|e| format!("after {:?}: {e}", &v[..=n]))?;
        }
        o.steps(v.len() as u64 + 1);
        o.state(h(st));
        Ok(())
    });
    // several folders, one of them with a space and named like the other in front
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Fo { Add(usize), Remove(usize), Save(usize, usize), Shared(usize, usize) }
    use Fo::*;
    let names = ["one", "one two", "é", "one/in ner"];
    let fo = [Add(0), Add(1), Remove(0), Remove(1), Save(0, 0), Save(0, 1), Save(1, 1), Save(1, 5), Shared(0, 1), Shared(1, 2), Add(2), Save(2, 3), Add(3), Remove(3), Save(3, 1), Shared(3, 0)];
    let mut folded: Vec<Vec<Fo>> = seqs(&fo, 1, ck.t(2, 3)).collect();
    if ck.quick() { folded.extend(seqs(&[Remove(0), Remove(3), Save(3, 1), Shared(3, 1), Save(0, 0)], 3, 3)); }
    ck.explore("folders", "every sequence of adding and removing three folders and saving files in them, open or not, up to the bound: what is shown is what is wrong in the open folders", folded, |v, o| {
        let p = Proj::new(&Files::new());
        let roots: Vec<PathBuf> = names.iter().map(|n| p.root.join(n)).collect();
        let mut st = [(true, 1, 0), (true, 2, 0), (false, 0, 1), (true, 2, 0)];
        for (i, r) in roots.iter().enumerate() {
            for d in ["addons/a", "addons/b"] { std::fs::create_dir_all(r.join(d)).map_err(|e| e.to_string())?; }
            write(&r.join("addons/a/config.cpp"), self::A[st[i].1].0)?;
            write(&r.join("addons/b/config.cpp"), self::B[0].0)?;
            write(&r.join("addons/shared.hpp"), self::S[st[i].2].0)?;
        }
        chown_all(p.base());
        let want = |st: &[(bool, usize, usize); 4]| { let mut w = Shown::new(); for (i, x) in st.iter().enumerate() { if x.0 { w.extend(expected(&roots[i], x.1, 0, x.2)); } } w };
        let mut ls = Ls::start(p.base(), &[&roots[0], &roots[1], &roots[3]])?;
        ls.shows(&want(&st), 40).map_err(|e| format!("at first: {e}"))?;
        for (n, x) in v.iter().enumerate() {
            match *x {
                Add(i) => { st[i].0 = true; ls.folders(&[&roots[i]], &[])?; }
                Remove(i) => { st[i].0 = false; ls.folders(&[], &[&roots[i]])?; }
                Save(i, k) => { st[i].1 = k; write(&roots[i].join("addons/a/config.cpp"), self::A[k].0)?; ls.save(&roots[i].join("addons/a/config.cpp"))?; }
                Shared(i, k) => { st[i].2 = k; write(&roots[i].join("addons/shared.hpp"), self::S[k].0)?; ls.save(&roots[i].join("addons/shared.hpp"))?; }
            }
            ls.shows(&want(&st), if n + 1 == v.len() { 120 } else { 60 }).map_err(|e| format!("after {:?}: {e}", &v[..=n]))?;
        }
        o.steps(v.len() as u64 + 1);
        o.state(h(st));
        Ok(())
    });
    // a script that changes
    let texts = ["hint str player;\n", "\n\nx = [count allUnits, time];\n", "// nothing\n x = y;\nhint \"a\"; if (x) then { player };\n", "#include \"h.hpp\"\nhint \"é\"; INC;\n"];
    let edits: Vec<(usize, usize, bool)> = (0..4).flat_map(|t| [(0, t, false), (1, t, false), (0, t, true)]).collect();
    ck.explore("scripts", "every sequence of opening and saving two scripts of one name with four contents: on each command of the current contents its documentation is shown, on other words none", seqs(&edits, 2, ck.t(2, 3)), |v, o| {
        let p = Proj::new(&files(&[("addons/a/config.cpp", "class A {};\n"), ("addons/a/fnc.sqf", ""), ("addons/b/fnc.sqf", ""), ("addons/a/h.hpp", "#define INC player\n"), ("addons/b/h.hpp", "\n\n\n#define INC player\n")]));
        let mut ls = Ls::start(p.base(), &[&p.root])?;
        let mut now = [None, None];
        for (f, t, open) in v {
            let at = p.root.join(["addons/a/fnc.sqf", "addons/b/fnc.sqf"][*f]);
            write(&at, texts[*t])?;
            now[*f] = Some(texts[*t]);
            if *open { ls.notify("textDocument/didOpen", json!({"textDocument": {"uri": url(&at), "languageId": "sqf", "version": 1, "text": texts[*t]}}))?; } else { ls.save(&at)?; }
            for (f, t) in now.iter().enumerate() {
                let Some(t) = t else { continue };
                let u = url(&p.root.join(["addons/a/fnc.sqf", "addons/b/fnc.sqf"][f]));
                let places = words(t);
                let t0 = Instant::now();
                // it is cached some time after the event
                loop {
                    let got = places.iter().map(|(l, c, _)| ls.hover(&u, *l, *c)).collect::<Result<Vec<_>, _>>()?;
                    let want: Vec<_> = places.iter().map(|w| w.2.map(str::to_string)).collect();
                    if got == want { break; }
                    if t0.elapsed() > Duration::from_secs(8) { ensure_eq!(got, want, "documentation in {t:?} of file {f}"); }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        }
        o.steps(v.len() as u64 * 2);
        o.state(h(now));
        Ok(())
    });
    // checks that take long, because a file they include is slow to read, overlap with others that are started later
    let he = [Ev::Save(0), Ev::Save(1), Ev::Save(4), Ev::Held(0), Ev::Held(1), Ev::Late(0), Ev::Shared(0), Ev::Shared(1), Ev::Remove, Ev::Add];
    let mut cases = vec![];
    let mut all: Vec<Vec<Ev>> = seqs(&he, 2, ck.t(2, 3)).collect();
    if ck.quick() { all.extend(seqs(&[Ev::Save(4), Ev::Held(1), Ev::Late(0), Ev::Shared(1), Ev::Remove, Ev::Add], 3, 3)); }
    for v in all {
        let n = v.iter().filter(|e| matches!(e, Ev::Held(_) | Ev::Late(_))).count();
        if n == 0 || v.iter().filter(|e| **e == Ev::Add).count() > v.iter().filter(|e| **e == Ev::Remove).count() { continue; }
        for order in permutations(&(0..n).collect::<Vec<_>>()) { cases.push((v.clone(), order)); }
    }
    ck.explore("held", "every sequence of saves, of which some start a check that is held in the middle, and of removing and adding the folder, x every order in which the held checks go on: in the end what is shown is what is wrong with the current contents", cases, |(v, order), o| {
        let p = Proj::new(&files(&[("addons/a/config.cpp", self::A[1].0), ("addons/b/config.cpp", self::B[2].0), ("addons/shared.hpp", self::S[0].0)]));
        let n = order.len();
        let held: Vec<Gate> = (0..n).map(|i| Gate::new(&p, i)).collect::<Result<_, _>>()?;
        let mut ls = Ls::start_on(2 + n, p.base(), &[&p.root])?;
        let (mut a, mut s, mut off, mut open, mut i) = (1, 0, 0, true, 0);
        let want = |a: usize, s: usize, off: u64, open: bool| {
            let mut w = if open { expected(&p.root, a, 2, s) } else { Shown::new() };
            if let Some(l) = w.get_mut(&url(&p.root.join("addons/a/config.cpp"))) { *l = l.iter().map(|(c, l)| (c.clone(), l + off)).collect(); }
            w
        };
        ls.shows(&want(a, s, off, open), 40).map_err(|e| format!("at first: {e}"))?;
        let f = p.root.join("addons/a/config.cpp");
        for x in v {
            match *x {
                Ev::Save(k) => { a = k; off = 0; write(&f, self::A[k].0)?; ls.save(&f)?; }
                Ev::Held(k) => { a = k; off = 1; write(&f, &format!("#include \"..\\held{i}.hpp\"\n{}", self::A[k].0))?; ls.save(&f)?; held[i].arrives(); i += 1; }
                Ev::Late(k) => { a = k; off = 0; write(&f, &format!("{}#include \"..\\held{i}.hpp\"\n", self::A[k].0))?; ls.save(&f)?; held[i].arrives(); i += 1; }
                Ev::Shared(k) => { s = k; write(&p.root.join("addons/shared.hpp"), self::S[k].0)?; ls.save(&p.root.join("addons/shared.hpp"))?; }
                Ev::Remove => { open = false; ls.folders(&[], &[&p.root])?; }
                Ev::Add => { open = true; ls.folders(&[&p.root], &[])?; }
            }
            if !matches!(x, Ev::Held(_) | Ev::Late(_)) { std::thread::sleep(Duration::from_millis(60)); }
        }
        for i in order { held[*i].release()?; std::thread::sleep(Duration::from_millis(40)); }
        ls.shows(&want(a, s, off, open), 150)?;
        o.steps(v.len() as u64 + 1);
        o.state(h((a, s, open, v.len())));
        Ok(())
    });
    // the command under the cursor
    let pieces = ["hint str player;\n", "x = [count allUnits, time];\n", "if (time > 5) then {\n\thint format [\"a player\", count y];\n} else { z = player };\n", "// hint player\n", "/* hint\nplayer */\n", "#include \"h.hpp\"\n", "#define MAC(x) hint x\n", "w = \"é hint\"; hint \"é\";\n", "  private _a = 3 max (random 4);\n", "\n", "INC;\n", "/* é */ y = y apply { str _x };\n"];
    ck.explore("hover", "every sequence of lines of code, comments, directives and macros up to the bound x every place in it: on a command its documentation is shown, on other words none", seqs(&pieces, 1, ck.t(3, 4)), |v, o| {
        let t = format!("{}hint \"end\";\n", v.concat());
        let p = Proj::new(&files(&[("addons/a/config.cpp", "class A {};\n"), ("addons/a/fnc.sqf", &t), ("addons/a/h.hpp", "#define INC player\n\n\nq = 1 + floor 2.5;\n")]));
        let mut ls = Ls::start(p.base(), &[&p.root])?;
        let u = url(&p.root.join("addons/a/fnc.sqf"));
        ls.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "sqf", "version": 1, "text": t}}))?;
        // the cached script answers once it is there
        let places = words(&t);
        let (line, col, _) = places.iter().rev().find(|w| w.2.is_some()).ok_or("no word")?.clone();
        let t0 = Instant::now();
        while ls.hover(&u, line, col)?.is_none() { if t0.elapsed() > Duration::from_secs(10) { break; } std::thread::sleep(Duration::from_millis(5)); }
        for (line, col, w) in places {
            let g = ls.hover(&u, line, col)?;
            ensure_eq!(g, w.map(str::to_string), "documentation at {}:{} of {t:?}", line + 1, col + 1);
        }
        o.steps(t.len() as u64);
        o.state(h(v));
        Ok(())
    });
}

/// Line, character and the command to be shown there, of every character of the words of a script
fn words(t: &str) -> Vec<(u64, u64, Option<&'static str>)> {
    const KNOWN: [&str; 13] = ["hint", "str", "player", "count", "allUnits", "time", "if", "then", "else", "format", "max", "random", "apply"];
    let mut out = vec![];
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut line, mut col) = (0, 0u64, 0u64);
    let mut start = true;
    while i < c.len() {
        let adv = |n: usize, i: &mut usize, line: &mut u64, col: &mut u64| for _ in 0..n { if c[*i] == '\n' { *line += 1; *col = 0; } else { *col += c[*i].len_utf16() as u64; } *i += 1; };
        let until = |s: &str| (i..c.len()).find(|&j| c[j..].iter().collect::<String>().starts_with(s)).map_or(c.len() - i, |j| j - i);
        if c[i] == '/' && c.get(i + 1) == Some(&'/') || c[i] == '#' && start { adv(until("\n"), &mut i, &mut line, &mut col); continue; }
        if c[i] == '/' && c.get(i + 1) == Some(&'*') { adv(until("*/") + 2, &mut i, &mut line, &mut col); continue; }
        start = c[i] == '\n';
        if c[i] == '"' { adv(1, &mut i, &mut line, &mut col); let n = (i..c.len()).position(|j| c[j] == '"').unwrap_or(0); adv(n + 1, &mut i, &mut line, &mut col); continue; }
        if c[i].is_ascii_alphabetic() || c[i] == '_' {
            let n = (i..c.len()).position(|j| !(c[j].is_ascii_alphanumeric() || c[j] == '_')).unwrap_or(c.len() - i);
            let w: String = c[i..i + n].iter().collect();
            let k = KNOWN.iter().find(|k| **k == w).copied();
            if !["private", "INC", "MAC"].contains(&w.as_str()) { for x in 0..n as u64 { out.push((line, col + x, k)); } }
            adv(n, &mut i, &mut line, &mut col);
            continue;
        }
        adv(1, &mut i, &mut line, &mut col);
    }
    out
}
impl Ls {
    /// The name of the command whose documentation is shown
    fn hover(&mut self, u: &str, line: u64, col: u64) -> Result<Option<String>, String> {
        let r = self.request("textDocument/hover", json!({"textDocument": {"uri": u}, "position": {"line": line, "character": col}}))?;
        Ok(r["contents"][0].as_str().and_then(|s| s.lines().next()).and_then(|l| l.strip_prefix("## ")).map(str::to_string))
    }
}
