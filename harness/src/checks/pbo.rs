//! A01 / A02: PBO archives.
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

use hemtt_pbo::{ReadablePbo, WritablePbo};
use sha1::{Digest, Sha1};

use crate::fw::*;
use crate::{ensure, ensure_eq};

// ------------------------------------------------------------ reference reader
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RefEntry {
    pub name: String,
    pub mime: u32,
    pub original: u32,
    pub reserved: u32,
    pub timestamp: u32,
    pub data: Vec<u8>,
    pub offset: usize,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RefPbo {
    pub vers: bool,
    pub props: Vec<(String, String)>,
    pub files: Vec<RefEntry>,
    pub checksum: [u8; 20],
}
/// The archive format, read naively.
pub fn ref_parse(b: &[u8]) -> Result<RefPbo, String> {
    let mut p = 0usize;
    let cstr = |p: &mut usize| -> Result<String, String> {
        let s = *p;
        while *b.get(*p).ok_or("eof in string")? != 0 {
            *p += 1;
        }
        let r = String::from_utf8(b[s..*p].to_vec()).map_err(|e| e.to_string())?;
        *p += 1;
        Ok(r)
    };
    let u32_ = |p: &mut usize| -> Result<u32, String> {
        let x = b.get(*p..*p + 4).ok_or("eof in u32")?;
        *p += 4;
        Ok(u32::from_le_bytes(x.try_into().unwrap()))
    };
    let mut out = RefPbo {
        vers: false,
        props: vec![],
        files: vec![],
        checksum: [0; 20],
    };
    let mut sizes = vec![];
    loop {
        let name = cstr(&mut p)?;
        let mime = u32_(&mut p)?;
        let original = u32_(&mut p)?;
        let reserved = u32_(&mut p)?;
        let timestamp = u32_(&mut p)?;
        let size = u32_(&mut p)?;
        if mime == 0x5665_7273 {
            if out.vers || !name.is_empty() {
                return Err("misplaced property header".into());
            }
            out.vers = true;
            loop {
                let k = cstr(&mut p)?;
                if k.is_empty() {
                    break;
                }
                let v = cstr(&mut p)?;
                out.props.push((k, v));
            }
        } else if name.is_empty() {
            if mime != 0 || original != 0 || reserved != 0 || timestamp != 0 || size != 0 {
                return Err("terminator entry is not blank".into());
            }
            break;
        } else {
            out.files.push(RefEntry {
                name,
                mime,
                original,
                reserved,
                timestamp,
                data: vec![],
                offset: 0,
            });
            sizes.push(size as usize);
        }
    }
    for (f, s) in out.files.iter_mut().zip(sizes) {
        f.offset = p;
        f.data = b.get(p..p + s).ok_or("eof in data")?.to_vec();
        p += s;
    }
    let body_end = p;
    if b.get(p) != Some(&0) {
        return Err("no NUL before the checksum".into());
    }
    p += 1;
    if b.len() != p + 20 {
        return Err(format!("{} bytes after the data, expected 21", b.len() - p + 1));
    }
    out.checksum.copy_from_slice(&b[p..]);
    let mut h = Sha1::new();
    h.update(&b[..body_end]);
    if h.finalize().as_slice() != out.checksum {
        return Err("trailing checksum is not the SHA-1 of everything before it".into());
    }
    Ok(out)
}

// ------------------------------------------------------------ environment: readers and writers
/// A reader that hands out at most `chunk` bytes per read call.
#[derive(Debug, Clone)]
pub struct Chunky {
    pub inner: Cursor<Vec<u8>>,
    pub chunk: usize,
}
impl Chunky {
    pub fn new(v: Vec<u8>, chunk: usize) -> Self {
        Self {
            inner: Cursor::new(v),
            chunk,
        }
    }
}
impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.chunk);
        self.inner.read(&mut buf[..n])
    }
}
impl Seek for Chunky {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(p)
    }
}
/// A writer that accepts at most `chunk` bytes per write call.
pub struct ChunkyW {
    pub out: Vec<u8>,
    pub chunk: usize,
}
impl Write for ChunkyW {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.chunk);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------ model
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Model {
    pub files: BTreeMap<String, (String, Vec<u8>)>, // lowercase name -> (name, data)
    pub props: BTreeMap<String, String>,
}
pub fn norm(n: &str) -> String {
    n.replace('/', "\\")
}

/// Compare an archive produced by the implementation with the model, byte by byte, then read it
/// back through the implementation.
pub fn check_archive(bytes: &[u8], m: &Model, with_props: bool, o: &mut Obs) -> R {
    let r = ref_parse(bytes).map_err(|e| format!("written archive is malformed: {e}"))?;
    o.state(bytes);
    ensure_eq!(r.vers, with_props, "property section present");
    if with_props {
        let mut got: Vec<_> = r.props.clone();
        if m.props.contains_key("prefix") {
            ensure_eq!(got.first().map(|x| x.0.as_str()), Some("prefix"), "first property");
        }
        got.sort();
        let want: Vec<_> = m.props.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        ensure_eq!(got, want, "stored properties");
    } else {
        ensure!(r.props.is_empty(), "properties stored though not requested");
    }
    let want: Vec<(&str, &[u8])> = m.files.values().map(|(n, d)| (n.as_str(), d.as_slice())).collect();
    let got: Vec<(&str, &[u8])> = r.files.iter().map(|f| (f.name.as_str(), f.data.as_slice())).collect();
    if want != got {
        let w: Vec<_> = want.iter().map(|(n, d)| (n, d.len())).collect();
        let g: Vec<_> = got.iter().map(|(n, d)| (n, d.len())).collect();
        return Err(format!("stored files differ (or their order): got {g:?}, expected {w:?}"));
    }
    for f in &r.files {
        ensure_eq!((f.mime, f.original as usize, f.reserved, f.timestamp), (0, f.data.len(), 0, 0), "header of {}", f.name);
    }
    read_back(bytes, &r, o)
}

/// The implementation's reader agrees with the reference reader on every observable.
pub fn read_back(bytes: &[u8], r: &RefPbo, o: &mut Obs) -> R {
    let chunk = if bytes.len() < 4096 { 7 } else { 1 << 16 };
    let mut p = ReadablePbo::from(Chunky::new(bytes.to_vec(), chunk)).map_err(|e| format!("cannot read it back: {e}"))?;
    let got: Vec<_> = p.files().iter().map(|h| (h.filename().to_string(), h.size() as usize, h.mime().as_u32(), h.original(), h.reserved(), h.timestamp())).collect();
    let want: Vec<_> = r.files.iter().map(|f| (f.name.clone(), f.data.len(), f.mime, f.original, f.reserved, f.timestamp)).collect();
    ensure_eq!(got, want, "entries read back");
    let props: BTreeMap<String, String> = r.props.iter().cloned().collect();
    let gp: BTreeMap<String, String> = p.properties().iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    ensure_eq!(gp, props, "properties read back");
    ensure_eq!(*p.checksum().as_bytes(), r.checksum, "stored checksum");
    let gen = p.gen_checksum().map_err(|e| e.to_string())?;
    ensure_eq!(*gen.as_bytes(), r.checksum, "recomputed checksum");
    for f in &r.files {
        let off = p.file_offset(&f.name).map_err(|e| e.to_string())?;
        ensure_eq!(off, Some(f.offset as u64), "offset of {}", f.name);
        let mut data: Vec<u8> = vec![];
        match p.file(&f.name).map_err(|e| e.to_string())? {
            None => return Err(format!("file {} not found when read back", f.name)),
            Some(mut x) => x.read_to_end(&mut data).map_err(|e| e.to_string())?,
        };
        if data != f.data {
            return Err(format!("content of {} differs when read back ({} bytes, expected {})", f.name, data.len(), f.data.len()));
        }
        o.steps(1);
    }
    Ok(())
}

fn build(order: &[(String, Vec<u8>)], props: &[(&str, &str)], with_props: bool, chunk: usize) -> Result<(Vec<u8>, Model), String> {
    let mut w = WritablePbo::new();
    let mut m = Model::default();
    for (k, v) in props {
        w.add_property(*k, *v);
        m.props.insert((*k).into(), v.trim_matches('\\').into());
    }
    for (n, d) in order {
        w.add_file(n.clone(), Chunky::new(d.clone(), chunk)).map_err(|e| e.to_string())?;
        m.files.insert(norm(n).to_lowercase(), (norm(n), d.clone()));
    }
    let mut out = ChunkyW { out: vec![], chunk: if chunk > 1000 { chunk } else { 5 } };
    let c = w.write(&mut out, with_props).map_err(|e| e.to_string())?;
    let n = out.out.len();
    ensure!(n >= 20 && out.out[n - 20..] == *c.as_bytes(), "returned checksum is not the stored one");
    Ok((out.out, m))
}

const NAMES: &[&str] = &[
    "a.sqf", "b.sqf", "B\\a.sqf", "b_a.sqf", "bB.paa", "ba.paa", "Z", "_z", "a/b/c.ext", "A.Sqf.bak", "é.txt", "É2.txt",
    "config.bin", "a b", "$x", "~", "b.sqf2", "x",
];

#[derive(Debug, Clone)]
enum Op {
    Add(&'static str, &'static [u8]),
    Prop(&'static str, &'static str),
    DelProp(&'static str),
    Look(&'static str),
    Write(bool),
}

pub fn roundtrip(ck: &Ck) {
    ck.assume("file names in one archive differ by more than letter case, are non-empty UTF-8 without NUL; property keys are non-empty");
    // 1. every operation sequence on a writer against a map model
    let mut alpha = vec![
        Op::Add("b.sqf", b"one"),
        Op::Add("a/x.paa", b""),
        Op::Add("a\\x.paa", b"\0zz"),
        Op::Add("_c", b"c"),
        Op::Prop("prefix", "\\z\\m\\"),
        Op::Prop("version", "1.2"),
        Op::Prop("k", ""),
        Op::DelProp("version"),
        Op::Look("a/x.paa"),
        Op::Write(true),
    ];
    if !ck.quick() {
        alpha.push(Op::Write(false));
        alpha.push(Op::DelProp("prefix"));
        alpha.push(Op::Prop("version", "\\9\\8"));
        alpha.push(Op::Add("B2.sqf", b"x"));
    }
    let depth = ck.t(4, 5);
    ck.explore(
        "writer-ops",
        "every sequence of add/replace file, add/remove property, look up and write operations up to the depth bound, then both kinds of final write, against a map model",
        seqs(&alpha, 0, depth),
        |ops, o| {
            let mut w: WritablePbo<Cursor<Vec<u8>>> = WritablePbo::new();
            let mut m = Model::default();
            for op in ops {
                o.steps(1);
                match op {
                    Op::Add(n, d) => {
                        let mut c = Cursor::new(d.to_vec());
                        c.set_position(1); // the input is not at its start
                        let old = w.add_file(*n, c).map_err(|e| e.to_string())?;
                        let want = m.files.insert(norm(n).to_lowercase(), (norm(n), d.to_vec()));
                        ensure_eq!(old.map(|(c, h)| (h.filename().to_string(), c.into_inner())), want, "replaced file");
                    }
                    Op::Prop(k, v) => {
                        let old = w.add_property(*k, *v);
                        ensure_eq!(old, m.props.insert((*k).into(), v.trim_matches('\\').into()), "replaced property");
                    }
                    Op::DelProp(k) => {
                        ensure_eq!(w.remove_property(k), m.props.remove(*k), "removed property");
                    }
                    Op::Look(n) => {
                        let mut got = None;
                        if let Some(f) = w.file(n).map_err(|e| e.to_string())? {
                            let mut v = vec![];
                            f.read_to_end(&mut v).map_err(|e| e.to_string())?;
                            got = Some(v);
                        }
                        ensure_eq!(got, m.files.get(&norm(n).to_lowercase()).map(|x| x.1.clone()), "writer lookup of {n}");
                    }
                    Op::Write(p) => {
                        let mut out = Cursor::new(vec![]);
                        w.write(&mut out, *p).map_err(|e| e.to_string())?;
                        check_archive(out.get_ref(), &m, *p, o)?;
                    }
                }
                ensure_eq!(w.properties().iter().map(|(a, b)| (a.clone(), b.clone())).collect::<BTreeMap<_, _>>(), m.props, "writer properties");
                let mut names: Vec<_> = w.files().iter().map(|h| (h.filename().to_lowercase(), h.size() as usize)).collect();
                names.sort();
                ensure_eq!(names, m.files.iter().map(|(k, v)| (k.clone(), v.1.len())).collect::<Vec<_>>(), "writer file list");
            }
            for p in [true, false] {
                let mut out = Cursor::new(vec![]);
                w.write(&mut out, p).map_err(|e| e.to_string())?;
                check_archive(out.get_ref(), &m, p, o)?;
            }
            Ok(())
        },
    );
    // 2. every set of names, every insertion order: one canonical archive
    let k = ck.t(3, 4);
    ck.explore(
        "insertion-orders",
        "every set of up to k names of the alphabet, in every insertion order: the archive equals the model and is byte-identical across orders",
        subsets(NAMES, 0, k),
        |names, o| {
            let mut first: Option<Vec<u8>> = None;
            for perm in permutations(names) {
                let files: Vec<_> = perm.iter().map(|n| (n.to_string(), format!("data of {n}").into_bytes())).collect();
                let (b, m) = build(&files, &[("hemtt", "1.0"), ("prefix", "z\\m\\addons\\main"), ("version", "1.2.3.4")], true, 3)?;
                o.steps(1);
                check_archive(&b, &m, true, o)?;
                match &first {
                    None => first = Some(b),
                    Some(f) => ensure!(*f == b, "the archive depends on the insertion order ({perm:?})"),
                }
            }
            Ok(())
        },
    );
    // 3. file sizes: every small size and every buffer/threshold boundary, in each position
    let mut sizes: Vec<usize> = (0..=ck.t(300, 1100)).collect();
    for p in 9..=ck.t(21, 23) {
        for d in [-1i64, 0, 1] {
            sizes.push(((1i64 << p) + d) as usize);
        }
    }
    for s in [999_999, 1_000_000, 1_000_001, 1_000_002, 1_500_000, 2_000_000, 3_000_001, 10_000, 100_000, 16_777_217] {
        sizes.push(s);
    }
    sizes.sort_unstable();
    sizes.dedup();
    let cases: Vec<(usize, usize, usize)> = sizes
        .iter()
        .flat_map(|s| {
            let chunks: Vec<usize> = if *s < 400 { vec![1, 64, 1 << 20] } else { vec![8192, 1 << 20] };
            (0..3).flat_map(move |pos| chunks.clone().into_iter().map(move |c| (*s, pos, c)))
        })
        .collect();
    ck.explore("sizes", "one file of every size in the sweep as first, middle or last of three files, under every read/write chunking", cases, |&(size, pos, chunk), o| {
        let mut files = vec![("a.x".to_string(), b"first".to_vec()), ("m.x".into(), b"".to_vec()), ("z.x".into(), b"last!".to_vec())];
        files[pos].1 = fill(size, pos as u32 + 1);
        let (b, m) = build(&files, &[("prefix", "p")], true, chunk)?;
        check_archive(&b, &m, true, o)
    });
    // 3b. two large files (both on the parallel path) in every order
    let big: Vec<(usize, usize)> = product(&[0usize, 1, 1_000_000, 1_000_001, 1_048_577, 2_097_152], &[0usize, 1_000_000, 1_000_001, 1_300_000]);
    ck.explore("two-large", "every pair of sizes around the large-file threshold", big, |&(x, y), o| {
        let files = vec![("a".to_string(), fill(x, 1)), ("b".into(), fill(y, 2)), ("c".into(), b"tail".to_vec())];
        let (b, m) = build(&files, &[], true, 1 << 20)?;
        check_archive(&b, &m, true, o)
    });
    // 4. counts and string lengths
    let mut lens: Vec<(usize, usize, usize)> = vec![];
    for n in 0..=ck.t(300, 1200) {
        lens.push((n, 1, 1));
        lens.push((1, n, 1));
        lens.push((1, 1, n));
    }
    for n in [511, 512, 513, 1023, 1024, 1025, 4096, 8190, 8192, 65536] {
        lens.push((1, n, 1));
        lens.push((1, 1, n));
        lens.push((n.min(5000), 1, 1));
    }
    ck.explore("counts-and-lengths", "every file count, file name length and property value length in the sweep", lens, |&(count, namelen, proplen), o| {
        let mut files = vec![];
        for i in 0..count {
            let n = format!("{}{:04}.sqf", "n".repeat(namelen), (i * 7919) % count.max(1));
            files.push((n, fill(i % 5, i as u32)));
        }
        let v = "v".repeat(proplen);
        let (b, m) = build(&files, &[("version", &v), ("prefix", &v)], true, 1 << 16)?;
        check_archive(&b, &m, true, o)
    });
    // 5. property counts and values
    let vals = ["", "a", "\\a\\", "a\\b", "é", "x=y", " s ", "\\"];
    let keys = ["prefix", "version", "git", "Prefix", "mikero", "0"];
    let mut pcs = vec![];
    for s in subsets(&keys, 0, 3) {
        for perm in permutations(&s) {
            for v in seqs(&vals, perm.len(), perm.len()) {
                pcs.push(perm.iter().copied().zip(v).collect::<Vec<_>>());
            }
        }
    }
    ck.explore("properties", "every ordered set of up to 3 properties over the key and value alphabets", pcs, |p, o| {
        let (b, m) = build(&[("f".to_string(), b"x".to_vec())], p, true, 64)?;
        check_archive(&b, &m, true, o)
    });
    // 6. sizes that do not fit the format are refused
    ck.explore("too-large", "inputs reporting every length around 2^32", (0..6u64).map(|d| (1u64 << 32) - 3 + d), |&n, o| {
        struct Huge(u64);
        impl Read for Huge {
            fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
                Ok(0)
            }
        }
        impl Seek for Huge {
            fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
                Ok(self.0)
            }
        }
        let mut w = WritablePbo::new();
        let r = w.add_file("x", Huge(n));
        o.state(r.is_ok());
        ensure_eq!(r.is_ok(), n < (1 << 32), "accepting a file of {n} bytes");
        Ok(())
    });
}

/// A02: what a reader sees in any well-formed archive, also ones hemtt did not write.
pub fn lookup(ck: &Ck) {
    ck.assume("file names in one archive differ by more than letter case");
    // archives made by the reference writer: unsorted, with foreign header fields
    let names: &[&str] = &["b\\c.sqf", "a.txt", "Ab.TXT", "z\\y\\x.paa", "_u", "é\\É.txt"];
    let mut cases = vec![];
    for s in subsets(names, 0, ck.t(3, 4)) {
        for perm in permutations(&s) {
            for vers in [false, true] {
                cases.push((perm.clone(), vers));
            }
        }
    }
    ck.explore("foreign-archives", "every ordered set of up to k entries, with and without a property section, as stored by any tool (unsorted, non-zero header fields)", cases, |(files, vers), o| {
        let sizes = [0usize, 1, 300, 5];
        let mut b: Vec<u8> = vec![];
        let hdr = |b: &mut Vec<u8>, n: &str, f: [u32; 5]| {
            b.extend(n.as_bytes());
            b.push(0);
            for x in f {
                b.extend(x.to_le_bytes());
            }
        };
        if *vers {
            hdr(&mut b, "", [0x5665_7273, 0, 0, 0, 0]);
            for (k, v) in [("prefix", "z\\p"), ("version", "1"), ("Mikero", "DePbo")] {
                b.extend(k.as_bytes());
                b.push(0);
                b.extend(v.as_bytes());
                b.push(0);
            }
            b.push(0);
        }
        for (i, f) in files.iter().enumerate() {
            hdr(&mut b, f, [0, sizes[i] as u32 + 3, 7 * i as u32, 0x5f00_0000 + i as u32, sizes[i] as u32]);
        }
        hdr(&mut b, "", [0; 5]);
        for i in 0..files.len() {
            b.extend(fill(sizes[i], i as u32 + 9));
        }
        let mut h = Sha1::new();
        h.update(&b);
        let c = h.finalize();
        b.push(0);
        b.extend(c);
        let r = ref_parse(&b).expect("reference archive");
        o.state(&b);
        let mut p = ReadablePbo::from(Chunky::new(b.clone(), 11)).map_err(|e| e.to_string())?;
        // order-insensitive lookups, in any case and with either slash, interleaved
        let mut sorted: Vec<String> = r.files.iter().map(|f| f.name.clone()).collect();
        sorted.sort_by_key(|s| s.to_lowercase());
        ensure_eq!(p.files_sorted().iter().map(|h| h.filename().to_string()).collect::<Vec<_>>(), sorted, "sorted entries");
        let is_sorted = r.files.iter().map(|f| f.name.clone()).collect::<Vec<_>>() == sorted;
        match p.is_sorted() {
            Ok(()) => ensure!(is_sorted, "unsorted archive reported as sorted"),
            Err((now, want)) => {
                ensure!(!is_sorted, "sorted archive reported as unsorted");
                ensure_eq!(now.iter().map(|h| h.filename().to_string()).collect::<Vec<_>>(), r.files.iter().map(|f| f.name.clone()).collect::<Vec<_>>(), "reported order");
                ensure_eq!(want.iter().map(|h| h.filename().to_string()).collect::<Vec<_>>(), sorted, "reported wanted order");
            }
        }
        for _ in 0..2 {
            for f in &r.files {
                let variants = [f.name.clone(), f.name.to_uppercase(), f.name.to_lowercase(), f.name.replace('\\', "/"), f.name.to_uppercase().replace('\\', "/")];
                for v in variants {
                    o.steps(1);
                    ensure_eq!(p.file_offset(&v).map_err(|e| e.to_string())?, Some(f.offset as u64), "offset of {v}");
                    // an abandoned partial read must not disturb the next lookup
                    if let Some(mut x) = p.file(&v).map_err(|e| e.to_string())? {
                        let mut one = [0u8; 1];
                        let _ = x.read(&mut one);
                    }
                    let mut data: Vec<u8> = vec![];
                    match p.file(&v).map_err(|e| e.to_string())? {
                        None => return Err(format!("lookup of {v} fails")),
                        Some(mut x) => {
                            let mut buf = [0u8; 13];
                            loop {
                                let n = x.read(&mut buf).map_err(|e| e.to_string())?;
                                if n == 0 {
                                    break;
                                }
                                data.extend(&buf[..n]);
                            }
                        }
                    }
                    ensure!(data == f.data, "content of {v} differs: {} bytes, expected {}", data.len(), f.data.len());
                }
                let h = p.header(&f.name.replace('\\', "/")).ok_or_else(|| format!("no header for {}", f.name))?;
                ensure_eq!((h.size() as usize, h.original(), h.reserved(), h.timestamp()), (f.data.len(), f.original, f.reserved, f.timestamp), "header of {}", f.name);
            }
            for missing in ["", "a", "a.tx", "a.txtt", "c.sqf", "b", "b\\", "\\a.txt", "y\\x.paa", "prefix"] {
                if r.files.iter().any(|f| f.name.eq_ignore_ascii_case(missing)) {
                    continue;
                }
                ensure!(p.file(missing).map_err(|e| e.to_string())?.is_none(), "lookup of absent {missing:?} finds something");
                ensure_eq!(p.file_offset(missing).map_err(|e| e.to_string())?, None, "offset of absent {missing:?}");
                ensure!(p.header(missing).is_none(), "header of absent {missing:?}");
            }
        }
        ensure_eq!(p.properties().get("prefix").map(String::as_str), vers.then_some("z\\p"), "prefix");
        ensure_eq!(p.properties().len(), if *vers { 3 } else { 0 }, "property count");
        // checksum recomputation on a sorted archive gives the stored one
        if is_sorted {
            let g = p.gen_checksum().map_err(|e| e.to_string())?;
            ensure_eq!(*g.as_bytes(), r.checksum, "recomputed checksum");
        }
        Ok(())
    });
    // corruption: any single changed byte is noticed by comparing stored and recomputed checksums, or refused
    let mut w = WritablePbo::new();
    w.add_property("prefix", "z\\m");
    w.add_property("version", "1.0.0");
    for (n, d) in [("a.sqf", "hello"), ("b\\c.paa", "xyz"), ("d", "")] {
        w.add_file(n, Cursor::new(d.as_bytes().to_vec())).unwrap();
    }
    let mut out = Cursor::new(vec![]);
    w.write(&mut out, true).unwrap();
    let base = out.into_inner();
    let sep = base.len() - 21; // the NUL before the checksum carries no information
    // nor do the 20 blank bytes of the entry that ends the list
    let data = ref_parse(&base).expect("base archive").files[0].offset;
    let all: Vec<u8> = (1..=255).collect();
    let xs: Vec<u8> = if ck.quick() { vec![1, 2, 4, 8, 16, 32, 64, 128, 255] } else { all };
    let mut cases = vec![];
    for i in 0..base.len() {
        if i != sep && !(data - 20..data).contains(&i) {
            for x in &xs {
                cases.push((i, *x));
            }
        }
    }
    ck.explore("corruption", "every byte position of an archive xor every mask: the change is refused or the checksum comparison fails", cases, |&(i, x), o| {
        let mut b = base.clone();
        b[i] ^= x;
        let r = no_panic(|| ReadablePbo::from(Cursor::new(b)));
        match r? {
            Err(e) => {
                o.state(format!("{e}"));
                Ok(())
            }
            Ok(mut p) => {
                let stored = *p.checksum();
                match no_panic(|| p.gen_checksum())? {
                    Err(e) => o.state(format!("{e}")),
                    Ok(g) => {
                        o.state("mismatch");
                        ensure!(g != stored, "byte {i} xor {x:#x} goes unnoticed");
                    }
                }
                Ok(())
            }
        }
    });
    // truncation at every length, and every short extension
    let n = base.len();
    ck.explore("truncation", "every proper prefix of an archive and every extension by 1..8 bytes is refused", (0..n).map(|i| (i, 0usize)).chain((1..=8).map(|e| (n, e))), |&(cut, ext), o| {
        let mut b = base[..cut].to_vec();
        b.extend(vec![0u8; ext]);
        let r = no_panic(|| ReadablePbo::from(Cursor::new(b)))?;
        o.state(r.as_ref().err().map(|e| e.to_string()));
        ensure!(r.is_err(), "accepted");
        Ok(())
    });
}
