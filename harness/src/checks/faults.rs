//! A05: failing input and output. Every operation of every reader and writer is made to fail, in every way.
use std::collections::HashMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

use hemtt_common::config::PDriveOption;
use hemtt_common::io::{ReadExt, WriteExt};
use hemtt_config::rapify::Rapify;
use hemtt_p3d::{SearchCache, P3D};
use hemtt_paa::Paa;
use hemtt_pbo::{BISignVersion, ReadablePbo, WritablePbo};
use hemtt_signing::{BIPrivateKey, BIPublicKey, BISign};
use hemtt_stringtable::Project;
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};
use vfs::{FileSystem, SeekAndRead, SeekAndWrite, VfsError, VfsMetadata, VfsResult};

use super::sign::{KEY_A, KEY_B};
use crate::fw::*;
use crate::{ensure, ensure_eq};

/// What goes wrong
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum How {
    /// the operation fails, the next ones work again
    Once,
    /// this and all that follow fail
    Forever,
    /// interrupted by a signal: nothing happened, to be tried again
    Interrupted,
    /// a writer takes nothing any more
    Full,
    /// half of what was asked for is transferred, then the next operation fails
    Torn,
}
#[derive(Default)]
struct Ctl {
    n: usize,
    plan: Vec<(usize, How)>,
    out: Vec<u8>,
    /// what the operations were, for the report
    log: Vec<&'static str>,
    fired: bool,
    /// number of operations after which the project was found
    found: Option<usize>,
}
#[derive(Clone)]
struct C(Arc<Mutex<Ctl>>);
enum Do { Go, Half }
impl C {
    fn new(plan: &[(usize, How)]) -> Self { Self(Arc::new(Mutex::new(Ctl { plan: plan.to_vec(), ..Ctl::default() }))) }
    fn op(&self, what: &'static str) -> std::io::Result<Do> {
        let mut c = self.0.lock().unwrap();
        let n = c.n;
        c.n += 1;
        c.log.push(what);
        let mut r = Ok(Do::Go);
        let mut fired = false;
        for (at, how) in &c.plan {
            let hit = match how { How::Forever | How::Full => n >= *at, How::Torn => n == *at || n == *at + 1, _ => n == *at };
            if !hit { continue; }
            fired = true;
            r = match how {
                How::Once | How::Forever => Err(std::io::Error::other("injected")),
                How::Interrupted => Err(std::io::ErrorKind::Interrupted.into()),
                How::Full => Err(std::io::ErrorKind::WriteZero.into()),
                How::Torn if n == *at => Ok(Do::Half),
                How::Torn => Err(std::io::Error::other("injected")),
            };
        }
        c.fired |= fired;
        r
    }
}
struct Rd { inner: Cursor<Vec<u8>>, c: C, chunk: usize }
impl Read for Rd {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let n = buf.len().min(self.chunk);
        let n = match self.c.op("read")? { Do::Go => n, Do::Half => n.div_ceil(2) };
        self.inner.read(&mut buf[..n])
    }
}
impl Seek for Rd {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.op("seek")?;
        self.inner.seek(p)
    }
}
struct Wr { c: C, chunk: usize }
impl Write for Wr {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let n = buf.len().min(self.chunk);
        let n = match self.c.op("write") { Ok(Do::Go) => n, Ok(Do::Half) => n.div_ceil(2), Err(e) if e.kind() == std::io::ErrorKind::WriteZero => return Ok(0), Err(e) => return Err(e) };
        self.c.0.lock().unwrap().out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { self.c.op("flush").map(|_| ()) }
}
impl std::fmt::Write for Wr {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.c.op("write_str").is_err() { return Err(std::fmt::Error); }
        self.c.0.lock().unwrap().out.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
/// A file system whose operations fail
#[derive(Debug)]
struct Fs { inner: vfs::MemoryFS, c: Mutex<Option<CBox>> }
struct CBox(C);
impl std::fmt::Debug for CBox { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("ctl") } }
/// The same file system before and after it is put under control
#[derive(Debug, Clone)]
struct FsRef(Arc<Fs>);
impl FsRef {
    fn op(&self, what: &'static str) -> VfsResult<Option<C>> {
        let c = self.0.c.lock().unwrap().as_ref().map(|c| c.0.clone());
        if let Some(c) = &c { c.op(what).map_err(VfsError::from)?; }
        Ok(c)
    }
}
struct FsFile { inner: Box<dyn SeekAndRead + Send>, c: Option<C> }
impl Read for FsFile {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = buf.len();
        if let Some(c) = &self.c { if n > 0 { if let Do::Half = c.op("read")? { n = n.div_ceil(2); } } }
        self.inner.read(&mut buf[..n])
    }
}
impl Seek for FsFile {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { if let Some(c) = &self.c { c.op("seek")?; } self.inner.seek(p) }
}
impl FileSystem for FsRef {
    fn read_dir(&self, p: &str) -> VfsResult<Box<dyn Iterator<Item = String> + Send>> {
        self.op("read_dir")?;
        let mut v: Vec<String> = self.0.inner.read_dir(p)?.collect();
        v.sort();
        Ok(Box::new(v.into_iter()))
    }
    fn create_dir(&self, p: &str) -> VfsResult<()> { self.0.inner.create_dir(p) }
    fn open_file(&self, p: &str) -> VfsResult<Box<dyn SeekAndRead + Send>> { let c = self.op("open")?; Ok(Box::new(FsFile { inner: self.0.inner.open_file(p)?, c })) }
    fn create_file(&self, p: &str) -> VfsResult<Box<dyn SeekAndWrite + Send>> { self.0.inner.create_file(p) }
    fn append_file(&self, p: &str) -> VfsResult<Box<dyn SeekAndWrite + Send>> { self.0.inner.append_file(p) }
    fn metadata(&self, p: &str) -> VfsResult<VfsMetadata> { self.op("metadata")?; self.0.inner.metadata(p) }
    fn exists(&self, p: &str) -> VfsResult<bool> { self.op("exists")?; self.0.inner.exists(p) }
    fn remove_file(&self, p: &str) -> VfsResult<()> { self.0.inner.remove_file(p) }
    fn remove_dir(&self, p: &str) -> VfsResult<()> { self.0.inner.remove_dir(p) }
}

type Scene = Box<dyn Fn(&C) -> Result<Vec<u8>, String> + Send + Sync>;
fn rd(c: &C, v: &[u8], chunk: usize) -> Rd { Rd { inner: Cursor::new(v.to_vec()), c: c.clone(), chunk } }
fn e<E: std::fmt::Display>(e: E) -> String { e.to_string() }

fn pbo_scene(files: Vec<(&'static str, Vec<u8>)>, props: Vec<(&'static str, &'static str)>, chunk: usize) -> Scene {
    Box::new(move |c| {
        let mut p: WritablePbo<Rd> = WritablePbo::new();
        for (k, v) in &props { p.add_property(*k, *v); }
        for (n, d) in &files { p.add_file(*n, rd(c, d, chunk)).map_err(e)?; }
        let sum = p.write(&mut Wr { c: c.clone(), chunk }, !props.is_empty()).map_err(e)?;
        // the sum is part of the outcome
        Ok(sum.hex().into_bytes())
    })
}
const XML: &str = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"t\">\n  <!-- c -->\n  <Package name=\"p\">\n    <Key ID=\"STR_A\">\n      <Original>o &amp; p</Original>\n      <English>e</English>\n    </Key>\n    <Key ID=\"STR_B\"><!-- d --><Original>x</Original></Key>\n  </Package>\n</Project>\n";

/// name, scenario, writes bytes
fn scenes(big: bool) -> Result<Vec<(String, Scene)>, String> {
    let mut v: Vec<(String, Scene)> = vec![];
    let chunks: &[usize] = if big { &[1, 2, 7, 64, 1 << 20] } else { &[7, 1 << 20] };
    for &ch in chunks {
        let small = || vec![("b.sqf", b"hint 'b';".to_vec()), ("a\\c.hpp", fill(40, 3)), ("a/e.txt", vec![])];
        v.push((format!("write archive, chunk {ch}"), pbo_scene(small(), vec![("prefix", "z\\a"), ("k", "v")], ch)));
        v.push((format!("write empty archive, chunk {ch}"), pbo_scene(vec![], vec![], ch)));
        v.push((format!("write archive of 1 file over 8 KiB, chunk {ch}"), pbo_scene(vec![("a.bin", fill(if ch < 60 { 300 } else { 20_000 }, 9)), ("b", vec![1])], vec![("prefix", "x")], ch)));
    }
    for ch in [150_000usize, 1 << 20] {
        v.push((format!("write archive with large files, chunk {ch}"), pbo_scene(vec![("a.bin", fill(1_000_001, 5)), ("b.bin", fill(10, 6)), ("c.bin", fill(1_200_000, 7))], vec![("prefix", "x")], ch)));
    }
    let model = super::p3d::sample();
    let tex = super::paa::sample();
    for &ch in chunks {
        let m = P3D::read(&mut Cursor::new(&model)).map_err(e)?;
        v.push((format!("write model, chunk {ch}"), Box::new(move |c| { m.write(&mut Wr { c: c.clone(), chunk: ch }).map_err(e)?; Ok(vec![]) })));
        let b = model.clone();
        v.push((format!("read model, chunk {ch}"), Box::new(move |c| { let m = P3D::read(&mut rd(c, &b, ch)).map_err(e)?; let mut o = vec![]; m.write(&mut o).map_err(e)?; Ok(o) })));
        let b = tex.clone();
        v.push((format!("read texture, chunk {ch}"), Box::new(move |c| {
            let p = Paa::read(rd(c, &b, ch)).map_err(e)?;
            let mut t: Vec<_> = p.taggs().iter().map(|(a, b)| format!("{a} {b:?}")).collect(); t.sort();
            let mut o = format!("{:?} {t:?}", p.format().as_bytes()).into_bytes();
            for m in p.maps() { o.extend(m.get_image().to_rgba8().into_raw()); }
            Ok(o)
        })));
        v.push((format!("write texture, chunk {ch}"), Box::new(move |c| { let i = image::RgbaImage::from_fn(8, 4, |x, y| image::Rgba([x as u8 * 30, y as u8 * 60, 9, 255])); Paa::write(&i, &mut Wr { c: c.clone(), chunk: ch }).map_err(e)?; Ok(vec![]) })));
        let k = BIPrivateKey::read(&mut &KEY_A[..]).map_err(e)?;
        let arc = super::sign::base_arc().bytes();
        let sig = |ver| -> Result<Vec<u8>, String> { let mut p = ReadablePbo::from(Cursor::new(arc.clone())).map_err(e)?; let mut o = vec![]; k.sign(&mut p, ver).map_err(e)?.write(&mut o).map_err(e)?; Ok(o) };
        let mut pk = vec![]; k.to_public_key().write(&mut pk).map_err(e)?;
        let s = sig(BISignVersion::V3)?;
        v.push((format!("read private key, chunk {ch}"), Box::new(move |c| { let k = BIPrivateKey::read(&mut rd(c, KEY_A, ch)).map_err(e)?; let mut o = vec![]; k.write_danger(&mut o).map_err(e)?; Ok(o) })));
        let b = pk.clone();
        v.push((format!("read public key, chunk {ch}"), Box::new(move |c| { let k = BIPublicKey::read(&mut rd(c, &b, ch)).map_err(e)?; let mut o = vec![]; k.write(&mut o).map_err(e)?; Ok(o) })));
        let b = s.clone();
        v.push((format!("read signature, chunk {ch}"), Box::new(move |c| { let k = BISign::read(&mut rd(c, &b, ch)).map_err(e)?; let mut o = vec![]; k.write(&mut o).map_err(e)?; Ok(o) })));
        v.push((format!("write private key, chunk {ch}"), Box::new(move |c| { BIPrivateKey::read(&mut &KEY_A[..]).map_err(e)?.write_danger(&mut Wr { c: c.clone(), chunk: ch }).map_err(e)?; Ok(vec![]) })));
        let b = pk.clone();
        v.push((format!("write public key, chunk {ch}"), Box::new(move |c| { BIPublicKey::read(&mut &b[..]).map_err(e)?.write(&mut Wr { c: c.clone(), chunk: ch }).map_err(e)?; Ok(vec![]) })));
        let b = s.clone();
        v.push((format!("write signature, chunk {ch}"), Box::new(move |c| { BISign::read(&mut &b[..]).map_err(e)?.write(&mut Wr { c: c.clone(), chunk: ch }).map_err(e)?; Ok(vec![]) })));
        let b = arc.clone();
        v.push((format!("read archive, chunk {ch}"), Box::new(move |c| {
            let mut p = ReadablePbo::from(rd(c, &b, ch)).map_err(e)?;
            let mut o = format!("{:?} {:?}", p.properties(), p.checksum().hex()).into_bytes();
            for h in p.files_sorted() {
                let mut f = p.file(h.filename()).map_err(e)?.ok_or("listed but not found")?;
                let mut d = vec![]; f.read_to_end(&mut d).map_err(e)?;
                o.extend(format!("{} {d:?}", h.filename()).bytes());
            }
            o.extend(p.gen_checksum().map_err(e)?.hex().bytes());
            o.extend(p.hash_filenames().map_err(e)?.hex().bytes());
            for ver in [BISignVersion::V2, BISignVersion::V3] { o.extend(p.hash_files(ver).map_err(e)?.hex().bytes()); }
            Ok(o)
        })));
        for ver in [BISignVersion::V2, BISignVersion::V3] {
            let b = arc.clone();
            v.push((format!("sign {ver:?}, chunk {ch}"), Box::new(move |c| {
                let k = BIPrivateKey::read(&mut &KEY_A[..]).map_err(e)?;
                let mut p = ReadablePbo::from(rd(c, &b, ch)).map_err(e)?;
                let mut o = vec![]; k.sign(&mut p, ver).map_err(e)?.write(&mut o).map_err(e)?; Ok(o)
            })));
            // what must be accepted, and what must not
            let other = { let k = BIPrivateKey::read(&mut &KEY_B[..]).map_err(e)?; let mut o = vec![]; k.to_public_key().write(&mut o).map_err(e)?; o };
            let mut bad = vec![("right", arc.clone(), pk.clone()), ("wrong key", arc.clone(), other)];
            for (what, edit) in [("wrong content", 0usize), ("wrong name", 1), ("wrong property", 2)] {
                let mut a = super::sign::base_arc();
                match edit { 0 => a.files[0].1[0] ^= 1, 1 => a.files[0].0 = "b.sqf".into(), _ => a.props[2].1 = "1.0.1".into() }
                bad.push((what, a.bytes(), pk.clone()));
            }
            for (what, a, pk) in bad {
                let s = sig(ver)?;
                v.push((format!("verify {ver:?} {what}, chunk {ch}"), Box::new(move |c| {
                    let k = BIPublicKey::read(&mut &pk[..]).map_err(e)?;
                    let s = BISign::read(&mut &s[..]).map_err(e)?;
                    let mut p = ReadablePbo::from(rd(c, &a, ch)).map_err(e)?;
                    let r = k.verify(&mut p, &s);
                    // a refusal is an outcome of its own, so that a fault is never the reason for an acceptance
                    Ok(match r { Ok(()) => b"accepted".to_vec(), Err(hemtt_signing::Error::Io(e)) => return Err(e.to_string()), Err(hemtt_signing::Error::Pbo(e)) if matches!(*e, hemtt_pbo::Error::Io(_)) => return Err(e.to_string()), Err(e) => format!("refused {e:?}").into_bytes() })
                })));
            }
        }
        v.push((format!("read stringtable, chunk {ch}"), Box::new(move |c| { let p = Project::from_reader(std::io::BufReader::with_capacity(32, rd(c, XML.as_bytes(), ch))).map_err(e)?; let mut o = String::new(); p.to_writer(&mut o).map_err(e)?; Ok(o.into_bytes()) })));
        v.push((format!("config, chunk {ch}"), Box::new(move |c| {
            let r = super::conf::run_text("class A { x = 1; y = \"t\"; z[] = {1,2.5,{\"q\"}}; class B: A { w = 0.5; }; delete D; class E; };\n")?;
            let Ok(r) = &r.report else { return Err("refused".into()) };
            let n = r.config().rapify(&mut Wr { c: c.clone(), chunk: ch }, 0).map_err(e)?;
            Ok(n.to_le_bytes().to_vec())
        })));
        v.push((format!("strings and numbers, chunk {ch}"), Box::new(move |c| {
            let mut w = Wr { c: c.clone(), chunk: ch };
            w.write_cstring("abcdef").map_err(e)?; w.write_cstring("").map_err(e)?;
            let mut n = 0; for x in [0u32, 127, 128, 1 << 20, u32::MAX] { n += w.write_compressed_int(x).map_err(e)?; }
            Ok(vec![n as u8])
        })));
        v.push((format!("read strings and numbers, chunk {ch}"), Box::new(move |c| {
            let mut r = rd(c, b"abcdef\0\0\x7f\x80\x01\xff\xff\xff\xff\x0f", ch);
            let (a, b) = (r.read_cstring().map_err(e)?, r.read_cstring().map_err(e)?);
            let mut o = format!("{a} {b}");
            for _ in 0..3 { o += &format!(" {}", r.read_compressed_int().map_err(e)?); }
            Ok(o.into_bytes())
        })));
    }
    v.push(("write stringtable".into(), Box::new(move |c| { Project::from_reader(XML.as_bytes()).map_err(e)?.to_writer(&mut Wr { c: c.clone(), chunk: 1 << 20 }).map_err(e)?; Ok(vec![]) })));
    Ok(v)
}

const HOWS: [How; 5] = [How::Once, How::Forever, How::Interrupted, How::Full, How::Torn];
fn one(f: &Scene, want: &(Vec<u8>, Vec<u8>), plan: &[(usize, How)], o: &mut Obs) -> R {
    let c = C::new(plan);
    let r = no_panic(|| f(&c)).map_err(|p| format!("crashed: {p}"))?;
    let (n, fired, out, log) = { let mut g = c.0.lock().unwrap(); (g.n, g.fired, std::mem::take(&mut g.out), std::mem::take(&mut g.log)) };
    o.steps(n as u64);
    let at = || plan.iter().map(|p| format!("{} {}", p.0, log.get(p.0).unwrap_or(&"?"))).collect::<Vec<_>>().join(", ");
    match &r {
        Ok(x) => {
            ensure!(*x == want.0, "reported as done although operation {} failed, with another outcome: {} instead of {}", at(), clip(&String::from_utf8_lossy(x), 200), clip(&String::from_utf8_lossy(&want.0), 200));
            ensure!(out == want.1, "reported as done although operation {} failed and {} of {} bytes are written", at(), out.len(), want.1.len());
        }
        Err(m) => {
            ensure!(fired, "fails without a fault: {m}");
            ensure!(want.1.starts_with(&out), "what a failed run leaves behind is not the beginning of the file: {} bytes", out.len());
        }
    }
    o.state((r.is_ok(), out.len(), n));
    Ok(())
}

fn project_files() -> Vec<(&'static str, &'static str)> {
    vec![
        ("addons/a/$PBOPREFIX$", "z\\a"),
        ("addons/a/config.cpp", "#include \"b.hpp\"\n#include \"\\z\\a\\c.hpp\"\nclass M { y = K; };\n"),
        ("addons/a/b.hpp", "#include \"c.hpp\"\nclass B { z = K; };\n"),
        ("addons/a/c.hpp", "#ifndef G\n#define G\n#define K 5\nclass C;\n#endif\n"),
        ("addons/a/d.hpp", "x"),
        ("addons/a/t.tga", "x"),
        ("addons/m/mission.sqm", "x"),
    ]
}
fn workspace(fs: &FsRef, opts: &PDriveOption) -> Result<WorkspacePath, String> {
    let p: vfs::VfsPath = fs.clone().into();
    Workspace::create(p.clone(), vec![(p, LayerType::Source)], None, true, opts).map_err(e)
}
fn describe(w: &WorkspacePath) -> String {
    let f = |v: &[vfs::VfsPath]| v.iter().map(|p| p.as_str().to_string()).collect::<Vec<_>>();
    format!("{:?} {:?}", f(w.addons()), f(w.missions()))
}
fn in_project(plan: &[(usize, How)], cold: usize) -> (C, Result<String, String>, Result<String, String>) {
    let c = C::new(plan);
    let fs = FsRef(Arc::new(Fs { inner: vfs::MemoryFS::new(), c: Mutex::new(None) }));
    let p: vfs::VfsPath = fs.clone().into();
    for (n, t) in project_files() {
        let f = p.join(n).expect("join"); f.parent().create_dir_all().expect("dir");
        f.create_file().expect("file").write_all(t.as_bytes()).expect("write");
    }
    let control = |on: bool| *fs.0.c.lock().unwrap() = on.then(|| CBox(c.clone()));
    let model = P3D::read(&mut Cursor::new(super::p3d::textured(&["z\\a\\t.paa", "\\z\\a\\u.paa"]))).expect("model");
    let cache = SearchCache::new();
    let kept: Mutex<Option<WorkspacePath>> = Mutex::new(None);
    let go = || -> Result<String, String> {
        let w = match cold { 0 => workspace(&fs, &PDriveOption::Disallow)?, _ => { let k = kept.lock().unwrap().clone(); k.expect("workspace") } };
        { let mut g = c.0.lock().unwrap(); let n = g.n; g.found.get_or_insert(n); }
        let mut s = describe(&w);
        let path = w.join("addons/a/config.cpp").map_err(e)?;
        let r = hemtt_preprocessor::Processor::run(&path).map_err(|(_, x)| x.to_string())?;
        s += r.as_str();
        for n in ["\\z\\a\\d.hpp", "/addons/a/b.hpp", "/nothing", "\\z\\a\\nothing"] { s += &format!("{:?}", w.locate(n).map_err(e)?.map(|l| l.path.as_str().to_string())); }
        s += &path.read_to_string().map_err(e)?;
        let (a, b) = model.missing(&w, &cache).map_err(e)?;
        s += &format!("{a:?}{b:?}");
        Ok(s)
    };
    if cold == 1 { *kept.lock().unwrap() = Some(workspace(&fs, &PDriveOption::Disallow).expect("workspace")); }
    control(true);
    let r = no_panic(&go).unwrap_or_else(|p| Err(format!("CRASH {p}")));
    control(false);
    let again = no_panic(&go).unwrap_or_else(|p| Err(format!("CRASH {p}")));
    (c, r, again)
}

pub fn check(ck: &Ck) {
    ck.level("fault_enumeration");
    ck.assume("looking through the directories of a project leaves out what it can not look at, as it is written to do (dangling links)");
    ck.assume("a failing operation reports its failure (or, for a writer, takes nothing); data that is silently different is out of scope here");
    let s = match scenes(!ck.quick()) { Ok(s) => s, Err(x) => { ck.explore("setup", "the scenarios can be prepared", vec![()], |(), _| Err(x.clone())); return; } };
    let mut base: HashMap<usize, (Vec<u8>, Vec<u8>, usize)> = HashMap::new();
    for (i, (_, f)) in s.iter().enumerate() {
        let c = C::new(&[]);
        if let Ok(Ok(r)) = no_panic(|| f(&c)) { let g = c.0.lock().unwrap(); base.insert(i, (r, g.out.clone(), g.n)); }
    }
    ck.explore("without", "every scenario works when nothing fails, and its output does not depend on how it is cut into pieces", 0..s.len(), |&i, o| {
        let b = base.get(&i).ok_or_else(|| format!("{} fails", s[i].0))?;
        o.state((&b.0, &b.1)); o.steps(b.2 as u64);
        let stem = s[i].0.split(", chunk").next().unwrap();
        for (j, (n, _)) in s.iter().enumerate() { if n.split(", chunk").next() == Some(stem) && !stem.contains("over 8") { if let Some(x) = base.get(&j) { ensure!(x.1 == b.1 && x.0 == b.0, "{} and {n} give different output", s[i].0); } } }
        Ok(())
    });
    let cap = ck.t(400, 4000);
    let mut cases = vec![];
    for (i, (n, _)) in s.iter().enumerate() { let Some(b) = base.get(&i) else { continue }; for k in 0..b.2.min(cap) { for h in HOWS { cases.push((n.clone(), k, h)); } } }
    let index: HashMap<String, usize> = s.iter().enumerate().map(|(i, x)| (x.0.clone(), i)).collect();
    ck.explore("one-fault", "every scenario x every operation (the first 400, thorough 4000) failing once, from then on, interrupted, full or after half its work: an error, or the complete right outcome; a failed write leaves a beginning of the file", cases, |(n, k, h), o| {
        let i = index[n];
        let b = &base[&i];
        one(&s[i].1, &(b.0.clone(), b.1.clone()), &[(*k, *h)], o)
    });
    let cap2 = ck.t(12, 60);
    let mut cases = vec![];
    for (i, (n, _)) in s.iter().enumerate() { let Some(b) = base.get(&i) else { continue }; if b.1.len() > 100_000 { continue; } let m = b.2.min(cap2); for k in 0..m { for l in k + 1..m + 2 { for h in [How::Once, How::Interrupted] { cases.push((n.clone(), k, l, h)); } } } }
    ck.explore("two-faults", "every scenario x every pair of its first 12 (thorough 60) operations, the first interrupted, the second interrupted or failing", cases, |(n, k, l, h), o| {
        let i = index[n];
        let b = &base[&i];
        one(&s[i].1, &(b.0.clone(), b.1.clone()), &[(*k, How::Interrupted), (*l, *h)], o)
    });
    // a project on a failing file system
    let mut cases = vec![];
    let mut want = vec![];
    for cold in 0..2 {
        let (c, r, again) = in_project(&[], cold);
        let g = c.0.lock().unwrap();
        want.push((r, again));
        for k in 0..g.n {
            if k < g.found.unwrap_or(0) && matches!(g.log[k], "read_dir" | "metadata") { continue; }
            for h in [How::Once, How::Forever, How::Interrupted, How::Torn] { cases.push((cold, k, h)); } }
    }
    ck.explore("project", "finding, preprocessing, locating, listing and looking for the textures of a project, every file system operation failing: an error or the right outcome, and the right outcome when it is tried again", cases, |&(cold, k, h), o| {
        let w = want[cold].0.as_ref().map_err(|m| format!("fails without a fault: {m}"))?;
        ensure_eq!(want[cold].1.as_ref(), Ok(w), "the second time");
        let (c, r, again) = in_project(&[(k, h)], cold);
        let g = c.0.lock().unwrap();
        let what = g.log.get(k).copied().unwrap_or("?");
        o.steps(g.n as u64);
        o.state((&r, g.n));
        match &r { Ok(x) => ensure!(x == w, "{what} fails, reported as done with another outcome:\n{x}\ninstead of\n{w}"), Err(m) => ensure!(!m.starts_with("CRASH"), "{what} fails: {m}") }
        ensure!(again.as_ref() == Ok(w), "after a failing {what}, trying again gives {again:?}");
        Ok(())
    });
    // a file that does not have the size it had when it was added
    ck.explore("changed-size", "an input that became shorter or longer since it was added, at every size around the limits: an error, never an archive that does not match its headers", product(&[0usize, 1, 5, 999_999, 1_000_000, 1_000_001, 1_200_000], &[0usize, 1, 2, 6, 1_000_000, 1_000_001]), |&(a, b), o| {
        if a == b { return Ok(()); }
        struct Morph { v: [Cursor<Vec<u8>>; 2], i: usize }
        impl Read for Morph { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.v[self.i].read(b) } }
        impl Seek for Morph { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { if p == SeekFrom::Start(0) { self.i = 1; } self.v[self.i].seek(p) } }
        let mut p = WritablePbo::new();
        p.add_file("f", Morph { v: [Cursor::new(fill(a, 1)), Cursor::new(fill(b, 1))], i: 0 }).map_err(e)?;
        let mut out = vec![];
        let r = p.write(&mut out, true);
        o.steps(1); o.state((a, b, r.is_ok()));
        match r { Err(_) => Ok(()), Ok(_) => super::pbo::ref_parse(&out).map(|_| ()).map_err(|m| format!("wrote an archive that is not one: {m}")) }
    });
}
