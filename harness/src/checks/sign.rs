//! A03 / A04: signing, verification, key and signature files.
use std::io::Cursor;

use hemtt_pbo::{BISignVersion, ReadablePbo};
use hemtt_signing::{BIPrivateKey, BIPublicKey, BISign};
use rsa::BigUint;
use sha1::{Digest, Sha1};

use crate::fw::*;
use crate::{ensure, ensure_eq};

pub const KEY_A: &[u8] = include_bytes!("../../data/alpha512.biprivatekey");
const KEY_A2: &[u8] = include_bytes!("../../data/alpha512_other.biprivatekey");
pub const KEY_B: &[u8] = include_bytes!("../../data/beta512.biprivatekey");
const KEY_BIG: &[u8] = include_bytes!("../../data/alpha1024.biprivatekey");

fn key(b: &[u8]) -> Result<BIPrivateKey, String> {
    BIPrivateKey::read(&mut &b[..]).map_err(|e| format!("reading a valid private key: {e}"))
}

/// Private key fields, read naively.
#[derive(Debug, Clone)]
pub struct RefKey {
    authority: String,
    length: usize,
    n: BigUint,
    d: BigUint,
    raw_public: Vec<u8>,
}
fn ref_key(b: &[u8]) -> RefKey {
    let z = b.iter().position(|x| *x == 0).unwrap();
    let authority = String::from_utf8(b[..z].to_vec()).unwrap();
    let p = z + 1;
    let u = |o: usize| u32::from_le_bytes(b[p + o..p + o + 4].try_into().unwrap());
    let length = u(16) as usize;
    let n_at = p + 24;
    let d_at = n_at + length / 8 + 5 * (length / 16);
    assert_eq!(b.len(), d_at + length / 8);
    let mut raw_public = vec![];
    raw_public.extend((length as u32 / 8 + 20).to_le_bytes());
    raw_public.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
    raw_public.extend((length as u32).to_le_bytes());
    raw_public.extend(&b[p + 20..p + 24]);
    raw_public.extend(&b[n_at..n_at + length / 8]);
    RefKey {
        authority,
        length,
        n: BigUint::from_bytes_le(&b[n_at..n_at + length / 8]),
        d: BigUint::from_bytes_le(&b[d_at..d_at + length / 8]),
        raw_public,
    }
}

/// An archive in the abstract: properties (prefix first) and entries in stored order.
#[derive(Debug, Clone, Hash, PartialEq, Eq)]
pub struct Arc {
    pub props: Vec<(String, String)>,
    pub files: Vec<(String, Vec<u8>)>,
    pub vers: bool,
}
pub fn arc(props: &[(&str, &str)], files: &[(&str, &[u8])]) -> Arc {
    Arc {
        props: props.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        files: files.iter().map(|(a, b)| (a.to_string(), b.to_vec())).collect(),
        vers: true,
    }
}
impl Arc {
    pub fn body(&self) -> Vec<u8> {
        let mut b = vec![];
        let hdr = |b: &mut Vec<u8>, n: &str, m: u32, s: u32| {
            b.extend(n.as_bytes());
            b.push(0);
            for x in [m, s, 0, 0, s] {
                b.extend(x.to_le_bytes());
            }
        };
        if self.vers {
            hdr(&mut b, "", 0x5665_7273, 0);
            for (k, v) in &self.props {
                b.extend(k.as_bytes());
                b.push(0);
                b.extend(v.as_bytes());
                b.push(0);
            }
            b.push(0);
        }
        for (n, d) in &self.files {
            hdr(&mut b, n, 0, d.len() as u32);
        }
        hdr(&mut b, "", 0, 0);
        for (_, d) in &self.files {
            b.extend(d);
        }
        b
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.body();
        let c = Sha1::digest(&b);
        b.push(0);
        b.extend(c);
        b
    }
    /// The three signed digests of a sorted archive, from the format's definition.
    fn digests(&self, v: BISignVersion) -> [Vec<u8>; 3] {
        const V2: &[&str] = &["fxy", "jpg", "lip", "ogg", "p3d", "paa", "pac", "png", "rtm", "rvmat", "tga", "wrp", "wss"];
        const V3: &[&str] = &["bikb", "cfg", "ext", "fsm", "h", "hpp", "inc", "sqf", "sqfc", "sqm", "sqs"];
        let h1 = Sha1::digest(self.body()).to_vec();
        let mut names = Sha1::new();
        for (n, d) in &self.files {
            if !d.is_empty() {
                names.update(n.replace('/', "\\").to_lowercase());
            }
        }
        let names = names.finalize();
        let list = match v {
            BISignVersion::V2 => V2,
            BISignVersion::V3 => V3,
        };
        let mut fh = Sha1::new();
        let mut any = false;
        for (n, d) in &self.files {
            let base = n.rsplit(['\\', '/']).next().unwrap();
            let ext = match base.rfind('.') {
                Some(0) | None => "",
                Some(i) => &base[i + 1..],
            };
            if list.contains(&ext) {
                any = true;
                fh.update(d);
            }
        }
        if !any {
            fh.update(match v {
                BISignVersion::V2 => "nothing",
                BISignVersion::V3 => "gnihton",
            });
        }
        let fh = fh.finalize();
        let prefix = self.props.iter().find(|p| p.0 == "prefix").map(|p| p.1.clone());
        let fin = |first: &[u8]| {
            let mut h = Sha1::new();
            h.update(first);
            h.update(names);
            if let Some(p) = &prefix {
                h.update(p.as_bytes());
                if !p.ends_with('\\') {
                    h.update(b"\\");
                }
            }
            h.finalize().to_vec()
        };
        let (h2, h3) = (fin(&h1), fin(&fh));
        [h1, h2, h3]
    }
}
fn emsa(hash: &[u8], size: usize) -> BigUint {
    let mut v = vec![0u8, 1];
    v.resize(size - 36, 0xff);
    v.push(0);
    v.extend([0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14]);
    v.extend(hash);
    BigUint::from_bytes_be(&v)
}
fn le(n: &BigUint, size: usize) -> Vec<u8> {
    let mut v = n.to_bytes_le();
    v.resize(size, 0);
    v
}
/// The signature file the owner of `k` must produce.
fn ref_bisign(a: &Arc, k: &RefKey, v: BISignVersion) -> Vec<u8> {
    let size = k.length / 8;
    let s: Vec<Vec<u8>> = a.digests(v).iter().map(|h| le(&emsa(h, size).modpow(&k.d, &k.n), size)).collect();
    let mut b = k.authority.as_bytes().to_vec();
    b.push(0);
    b.extend(&k.raw_public);
    b.extend((size as u32).to_le_bytes());
    b.extend(&s[0]);
    b.extend(u32::from(v).to_le_bytes());
    b.extend((size as u32).to_le_bytes());
    b.extend(&s[1]);
    b.extend((size as u32).to_le_bytes());
    b.extend(&s[2]);
    b
}
fn sig_bytes(s: &BISign) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    s.write(&mut b).map_err(|e| e.to_string())?;
    Ok(b)
}
fn pub_bytes(p: &BIPublicKey) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    p.write(&mut b).map_err(|e| e.to_string())?;
    Ok(b)
}
type Pbo = ReadablePbo<Cursor<Vec<u8>>>;
fn open(b: &[u8]) -> Result<Pbo, String> {
    ReadablePbo::from(Cursor::new(b.to_vec())).map_err(|e| format!("cannot open archive: {e}"))
}
fn errname(r: &Result<(), hemtt_signing::Error>) -> String {
    match r {
        Ok(()) => "accepted".into(),
        Err(e) => format!("{e:?}").chars().take_while(|c| c.is_alphanumeric()).collect(),
    }
}

const V: [BISignVersion; 2] = [BISignVersion::V2, BISignVersion::V3];

/// Verify `sig` over `pbo` with `key`, all from bytes. Never panics.
fn verify(pbo: &[u8], key: &[u8], sig: &[u8]) -> Result<Result<(), String>, String> {
    no_panic(|| {
        let mut p = match ReadablePbo::from(Cursor::new(pbo.to_vec())) {
            Ok(p) => p,
            Err(e) => return Err(format!("pbo: {e:?}")),
        };
        let k = BIPublicKey::read(&mut &key[..]).map_err(|e| format!("key: {e:?}"))?;
        let s = BISign::read(&mut &sig[..]).map_err(|e| format!("sig: {e:?}"))?;
        let r = k.verify(&mut p, &s);
        match r {
            Ok(()) => Ok(()),
            Err(_) => Err(errname(&r)),
        }
    })
}

pub fn base_arc() -> Arc {
    arc(
        &[("prefix", "z\\m\\addons\\main"), ("hemtt", "1"), ("version", "1.0.0")],
        &[
            ("a.sqf", b"hint 1;"),
            ("config.bin", b"\0raPcfg"),
            ("data\\e.sqf", b""),
            ("data\\t.paa", b"texture"),
            ("z.hpp", b"x"),
        ],
    )
}

pub fn verify_check(ck: &Ck) {
    ck.assume("RSA and SHA-1 primitives of the rsa/sha1 crates are correct; forging a signature without the private key is infeasible");
    // 1. completeness + byte-exact signatures
    let pool: &[(&str, &[u8])] = &[
        ("a.sqf", b"code"),
        ("b.paa", b"img"),
        ("c", b"noext"),
        ("d\\e.hpp", b"d"),
        ("d.sqf\\f.txt", b"t"),
        ("e.rvmat", b""),
        ("f.h", b""),
        ("g/h.sqs", b"slash"),
        (".ext", b"dot"),
        ("Upper\\Name.txt", b"U"),
        ("x.sqf.paa", b"two"),
    ];
    let mut all_ext: Vec<Vec<(&str, &[u8])>> = vec![];
    for e in [
        "fxy", "jpg", "lip", "ogg", "p3d", "paa", "pac", "png", "rtm", "rvmat", "tga", "wrp", "wss", "bikb", "cfg", "ext", "fsm", "h", "hpp", "inc", "sqf", "sqfc", "sqm", "sqs", "bin", "txt",
        "xml", "sq", "sqfx", "cpp", "html", "bikey", "wav", "jpeg", "pbo", "bisurf", "shape", "p3", "p3do", "rv",
    ] {
        let n: &'static str = Box::leak(format!("f.{e}").into_boxed_str());
        all_ext.push(vec![(n, b"payload")]);
        all_ext.push(vec![("a.sqf", b"first"), (n, b"payload")]);
        all_ext.push(vec![(n, b"payload"), ("z.paa", b"last")]);
    }
    let mut fsets = subsets(pool, 1, ck.t(3, 4));
    for s in &mut fsets {
        s.sort_by_key(|f| f.0.to_lowercase());
    }
    fsets.extend(all_ext.into_iter().map(|mut v| {
        v.sort_by_key(|f| f.0.to_lowercase());
        v
    }));
    let prefixes: [Option<&str>; 4] = [None, Some("z\\m"), Some("z\\m\\"), Some("")];
    let keys: Vec<(&'static str, &'static [u8])> = vec![("alpha512", KEY_A), ("alpha1024", KEY_BIG)];
    let mut cases = vec![];
    for (i, f) in fsets.iter().enumerate() {
        for (j, p) in prefixes.iter().enumerate() {
            for v in V {
                for (k, kb) in &keys {
                    // the larger key on every 5th archive in the quick tier (it is much slower)
                    if *k == "alpha1024" && ck.quick() && (i + j) % 5 != 0 {
                        continue;
                    }
                    cases.push((f.clone(), *p, v, *k, *kb));
                }
            }
        }
    }
    struct C<'a>(Vec<(&'a str, &'a [u8])>, Option<&'a str>, BISignVersion, &'a str, &'a [u8]);
    impl std::fmt::Debug for C<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?} prefix={:?} {} {}", self.0.iter().map(|x| x.0).collect::<Vec<_>>(), self.1, self.2, self.3)
        }
    }
    let others = [KEY_A2, KEY_B];
    ck.explore(
        "sign-and-verify",
        "every archive (file sets incl. every listed extension, 4 prefix forms) x signature version x key: the signature file equals the reference byte for byte, is accepted by its key also after going through files, and by no other key",
        cases.into_iter().map(|(a, b, c, d, e)| C(a, b, c, d, e)),
        |C(files, prefix, v, _, kb), o| {
            let mut props = vec![("version", "1")];
            if let Some(p) = prefix {
                props.insert(0, ("prefix", *p));
            }
            let a = arc(&props, files);
            let bytes = a.bytes();
            let k = key(kb)?;
            let rk = ref_key(kb);
            let mut p = open(&bytes)?;
            let sig = k.sign(&mut p, *v);
            let sig = sig.map_err(|e| format!("signing failed: {e}"))?;
            let sb = sig_bytes(&sig)?;
            o.state(&sb);
            o.steps(3);
            let rb = ref_bisign(&a, &rk, *v);
            ensure!(sb == rb, "the signature file differs from the reference at byte {:?} of {}", sb.iter().zip(&rb).position(|(x, y)| x != y), rb.len());
            let pk = k.to_public_key();
            let pb = pub_bytes(&pk)?;
            let r = pk.verify(&mut p, &sig);
            ensure!(r.is_ok(), "own signature not accepted: {r:?}");
            ensure_eq!(verify(&bytes, &pb, &sb)?, Ok(()), "own signature through files");
            let mut out = vec![];
            BISign::read(&mut &sb[..]).map_err(|e| e.to_string())?.write(&mut out).map_err(|e| e.to_string())?;
            ensure!(out == sb, "signature file changes when read and written again");
            for ok in others {
                let opk = key(ok)?.to_public_key();
                ensure!(opk.verify(&mut p, &sig).is_err(), "signature accepted by another key (authority {})", opk.authority());
                let osig = key(ok)?.sign(&mut p, *v).map_err(|e| e.to_string())?;
                ensure!(pk.verify(&mut p, &osig).is_err(), "a signature made by another key (authority {}) is accepted", osig.authority());
            }
            Ok(())
        },
    );
    // 2. soundness: every byte of a signed archive, with the trailing checksum repaired by the attacker
    let a = base_arc();
    let base = a.bytes();
    let kb = KEY_A;
    let pk = pub_bytes(&key(kb).expect("key").to_public_key()).expect("public key");
    let sigs: Vec<Vec<u8>> = V.iter().map(|v| ref_bisign(&a, &ref_key(kb), *v)).collect();
    let body = base.len() - 21;
    let data = super::pbo::ref_parse(&base).expect("base").files[0].offset;
    let xs: Vec<u8> = if ck.quick() { vec![1, 0x20, 0x80, 0xff] } else { (1..=255).collect() };
    let mut cases = vec![];
    for i in (0..body).filter(|i| !(data - 20..data).contains(i)) {
        for x in &xs {
            for v in 0..2 {
                cases.push((i, *x, v));
            }
        }
    }
    ck.explore("tampered-byte", "every byte of a signed archive xor every mask, checksum recomputed: verification refuses", cases, |&(i, x, v), o| {
        let mut b = base[..body].to_vec();
        b[i] ^= x;
        let c = Sha1::digest(&b);
        b.push(0);
        b.extend(c);
        let r = verify(&b, &pk, &sigs[v])?;
        o.state(&r);
        ensure!(r.is_err(), "a modified archive is accepted");
        Ok(())
    });
    // 2b. structural tampering by every edit of the alphabet, up to 2 edits
    #[derive(Debug, Clone, PartialEq)]
    enum Ed {
        Drop(usize),
        Dup(usize),
        Rename(usize, &'static str),
        Content(usize, &'static [u8]),
        SwapContent(usize, usize),
        SwapEntries(usize, usize),
        Insert(usize, &'static str, &'static [u8]),
        SetProp(usize, &'static str),
        DropProp(usize),
        AddProp(&'static str, &'static str),
        RenameProp(usize, &'static str),
        NoProps,
    }
    let n = a.files.len();
    let mut eds = vec![Ed::NoProps, Ed::AddProp("git", "x"), Ed::AddProp("zz", "")];
    for i in 0..n {
        eds.push(Ed::Drop(i));
        eds.push(Ed::Dup(i));
        for r in ["a0.sqf", "A.SQF", "q.paa", "data/t.paa", "ZZ"] {
            eds.push(Ed::Rename(i, r));
        }
        for c in [&b""[..], b"x", b"hint 2;"] {
            eds.push(Ed::Content(i, c));
        }
        for j in i + 1..n {
            eds.push(Ed::SwapContent(i, j));
            eds.push(Ed::SwapEntries(i, j));
        }
        for (nm, d) in [("b.paa", &b""[..]), ("b.txt", b"evil"), ("zz.sqf", b"evil"), ("A.sqf", b"evil")] {
            eds.push(Ed::Insert(i, nm, d));
        }
    }
    for i in 0..3 {
        eds.push(Ed::DropProp(i));
        for v in ["", "z\\m\\addons\\main\\", "Z\\m\\addons\\main", "evil"] {
            eds.push(Ed::SetProp(i, v));
        }
        eds.push(Ed::RenameProp(i, "prefix"));
        eds.push(Ed::RenameProp(i, "Prefix"));
    }
    let apply = |a: &Arc, e: &Ed| -> Arc {
        let mut b = a.clone();
        match e {
            Ed::Drop(i) => {
                if *i < b.files.len() {
                    b.files.remove(*i);
                }
            }
            Ed::Dup(i) => {
                if let Some(f) = b.files.get(*i).cloned() {
                    b.files.insert(*i, f);
                }
            }
            Ed::Rename(i, r) => {
                if let Some(f) = b.files.get_mut(*i) {
                    f.0 = r.to_string();
                }
            }
            Ed::Content(i, c) => {
                if let Some(f) = b.files.get_mut(*i) {
                    f.1 = c.to_vec();
                }
            }
            Ed::SwapContent(i, j) => {
                if *j < b.files.len() {
                    let t = b.files[*i].1.clone();
                    b.files[*i].1 = b.files[*j].1.clone();
                    b.files[*j].1 = t;
                }
            }
            Ed::SwapEntries(i, j) => {
                if *j < b.files.len() {
                    b.files.swap(*i, *j);
                }
            }
            Ed::Insert(i, nm, d) => {
                let at = (*i).min(b.files.len());
                b.files.insert(at, (nm.to_string(), d.to_vec()));
            }
            Ed::SetProp(i, v) => {
                if let Some(p) = b.props.get_mut(*i) {
                    p.1 = v.to_string();
                }
            }
            Ed::DropProp(i) => {
                if *i < b.props.len() {
                    b.props.remove(*i);
                }
            }
            Ed::AddProp(k, v) => b.props.push((k.to_string(), v.to_string())),
            Ed::RenameProp(i, k) => {
                if let Some(p) = b.props.get_mut(*i) {
                    p.0 = k.to_string();
                }
            }
            Ed::NoProps => {
                b.props.clear();
                b.vers = false;
            }
        }
        b
    };
    let canon = |a: &Arc| -> Arc {
        // what the signature covers: properties with the prefix first and later duplicates of a key merged
        let mut b = a.clone();
        let mut m: Vec<(String, String)> = vec![];
        for (k, v) in &b.props {
            match m.iter_mut().find(|x| x.0 == *k) {
                Some(x) => x.1 = v.clone(),
                None => m.push((k.clone(), v.clone())),
            }
        }
        m.sort_by_key(|p| p.0 != "prefix");
        b.props = m;
        b
    };
    let reference = canon(&a);
    let cases: Box<dyn Iterator<Item = Vec<Ed>> + Send> = Box::new(seqs(&eds, 1, ck.t(2, 2)));
    ck.explore("tampered-structure", "every sequence of up to 2 structural edits (drop, duplicate, rename, replace, swap, insert entries; change properties) of a signed archive: verification refuses unless the archive is unchanged", cases, |seq, o| {
        let mut b = a.clone();
        for e in seq {
            b = apply(&b, e);
            o.steps(1);
        }
        if canon(&b) == reference {
            return Ok(());
        }
        let r = verify(&b.bytes(), &pk, &sigs[1])?;
        o.state(&r);
        ensure!(r.is_err(), "a modified archive is accepted: {:?}", b.files.iter().map(|f| (f.0.clone(), f.1.len())).collect::<Vec<_>>());
        Ok(())
    });
    // 3. unsorted archives are refused even when correctly signed over the canonical order
    let perms = permutations(&(0..4usize).collect::<Vec<_>>());
    ck.explore("unsorted", "every order of four entries: accepted exactly when sorted ignoring case", perms, |perm, o| {
        let f: [(&str, &[u8]); 4] = [("A.sqf", b"1"), ("b.sqf", b"2"), ("C\\d.sqf", b"3"), ("c_.sqf", b"4")];
        let sorted = arc(&[("prefix", "p")], &f);
        let mut shuffled = sorted.clone();
        shuffled.files = perm.iter().map(|i| sorted.files[*i].clone()).collect();
        let bytes = shuffled.bytes();
        let mut p = open(&bytes)?;
        let sig = key(KEY_A)?.sign(&mut p, BISignVersion::V3).map_err(|e| e.to_string())?;
        let r = key(KEY_A)?.to_public_key().verify(&mut p, &sig);
        o.state(errname(&r));
        ensure_eq!(r.is_ok(), perm == &[0, 1, 2, 3], "acceptance");
        Ok(())
    });
    // 4. every byte of the signature and of the key
    let sig = sigs[1].clone();
    let auth = 6usize; // "alpha\0"
    // bytes that carry no information: blob magic (12 bytes after the size) and the three length markers
    let l = 64usize;
    let start1 = auth + 4 + 12 + 4 + 4 + l;
    let dead_sig = move |i: usize| (auth + 4..auth + 16).contains(&i) || (start1..start1 + 4).contains(&i) || (start1 + 4 + l + 4..start1 + 4 + l + 8).contains(&i) || (start1 + 4 + l + 8 + l..start1 + 4 + l + 12 + l).contains(&i);
    let dead_key = move |i: usize| (auth + 4..auth + 16).contains(&i);
    let xs: Vec<u8> = if ck.quick() { vec![1, 2, 4, 8, 16, 32, 64, 128, 255] } else { (1..=255).collect() };
    // the length is only used in whole bytes: its three lowest bits carry no information
    let dead_bits = move |i: usize, x: u8| i == auth + 16 && x < 8;
    let mut cases = vec![];
    for x in &xs {
        for i in 0..sig.len() {
            if !dead_sig(i) && !dead_bits(i, *x) {
                cases.push(("signature", i, *x));
            }
        }
        for i in 0..pk.len() {
            if !dead_key(i) && !dead_bits(i, *x) {
                cases.push(("key", i, *x));
            }
        }
    }
    ck.explore("tampered-signature-or-key", "every informative byte of the signature file or key file xor every mask: verification refuses", cases, |&(what, i, x), o| {
        let (mut s, mut k) = (sig.clone(), pk.clone());
        if what == "key" {
            k[i] ^= x;
        } else {
            s[i] ^= x;
        }
        let r = verify(&base, &k, &s)?;
        o.state(&r);
        ensure!(r.is_err(), "accepted");
        Ok(())
    });
    // 5. matrix of archives x signatures: a signature belongs to exactly one archive
    let mut arcs = vec![a.clone()];
    for e in &eds {
        let b = apply(&a, e);
        let mut s = b.clone();
        s.files.sort_by_key(|f| f.0.to_lowercase());
        let mut names: Vec<_> = s.files.iter().map(|f| f.0.replace('/', "\\").to_lowercase()).collect();
        names.sort();
        names.dedup();
        if s == b && names.len() == b.files.len() && canon(&b) == b && !arcs.contains(&b) {
            arcs.push(b);
        }
    }
    let arcs = &arcs;
    let rk = ref_key(KEY_A);
    let all_sigs: Vec<[Vec<u8>; 2]> = arcs.iter().map(|a| [ref_bisign(a, &rk, V[0]), ref_bisign(a, &rk, V[1])]).collect();
    let idx: Vec<(usize, usize, usize)> = (0..arcs.len()).flat_map(|i| (0..arcs.len()).flat_map(move |j| [(i, j, 0), (i, j, 1)])).collect();
    ck.explore("matrix", "every pair (archive, signature of an archive) over all one-edit variants: accepted exactly on the diagonal", idx, |&(i, j, v), o| {
        let r = verify(&arcs[i].bytes(), &pk, &all_sigs[j][v])?;
        o.state(&r);
        ensure_eq!(r.is_ok(), i == j, "acceptance of archive {i} {:?} with the signature of archive {j}", arcs[i].files.iter().map(|f| (f.0.clone(), f.1.len())).collect::<Vec<_>>());
        Ok(())
    });
    // values chosen for what they decode to: nothing, the bare hash, wrong padding, hashes that start with zeros
    let h0 = arcs[0].digests(V[1]);
    let slots = ["sign1", "sign2", "sign3"];
    let mut crafted: Vec<(usize, String, BigUint)> = vec![];
    for slot in 0..3 {
        let good = emsa(&h0[slot], l);
        let mut add = |what: &str, v: BigUint| crafted.push((slot, what.to_string(), v));
        for d in [0u32, 1, 2, 3] {
            add(&format!("value {d}"), BigUint::from(d));
            add(&format!("modulus - {d}"), &rk.n - d);
        }
        add("all ones", BigUint::from_bytes_le(&vec![0xff; l]));
        let signed = |m: BigUint| m.modpow(&rk.d, &rk.n);
        add("bare hash", signed(BigUint::from_bytes_be(&h0[slot])));
        for keep in 0..20 {
            add(&format!("last {keep} bytes of the hash"), signed(BigUint::from_bytes_be(&h0[slot][20 - keep..])));
            let mut z = h0[slot].clone();
            z[..20 - keep].fill(0);
            if z != h0[slot] {
                add(&format!("padded hash with only its last {keep} bytes"), signed(emsa(&z, l)));
            }
        }
        let gb = {
            let mut b = good.to_bytes_be();
            while b.len() < l {
                b.insert(0, 0);
            }
            b
        };
        for i in 0..l {
            for x in [1u8, 0x80, gb[i]] {
                let mut b = gb.clone();
                b[i] ^= x;
                if b != gb && b[0] == 0 {
                    add(&format!("decodes with byte {i} xor {x}"), signed(BigUint::from_bytes_be(&b)));
                }
            }
        }
        // the same value plus the modulus decodes to the same number: only the smaller one fits here
        add("value of another slot", signed(emsa(&h0[(slot + 1) % 3], l)));
    }
    ck.explore("crafted-values", "every signature value that decodes to nothing, a bare or shortened hash, a hash with zeros, one altered byte of the padded hash, or another slot's hash, in each of the three places: verification refuses", crafted, |(slot, _, v), o| {
        let mut s = all_sigs[0][1].clone();
        let p1 = start1 + 4;
        let p2 = p1 + l + 8;
        let at = [p1, p2, p2 + l + 4][*slot];
        s[at..at + l].copy_from_slice(&le(v, l));
        if s == all_sigs[0][1] {
            return Err(format!("{}: not a change", slots[*slot]));
        }
        let r = verify(&arcs[0].bytes(), &pk, &s)?;
        o.steps(1);
        o.state((slot, &r));
        ensure!(r.is_err(), "accepted");
        Ok(())
    });
    // mixing the three values of different signatures or versions is refused
    let mut mixes = vec![];
    for m in 1u32..(1 << 4) {
        for other in 1..arcs.len().min(ck.t(12, 1000)) {
            mixes.push((m, other));
        }
    }
    ck.explore("mixed-signatures", "every mix of the version field and the three values of two signatures: verification refuses", mixes, |&(m, other), o| {
        let a = &all_sigs[0][1];
        // donor: signature of another archive; for the version bit, the V2 signature of the same archive
        let d = &all_sigs[other][1];
        let mut s = a.clone();
        let p1 = start1 + 4;
        let pv = p1 + l;
        let p2 = pv + 8;
        let p3 = p2 + l + 4;
        for (bit, at) in [(1, p1), (2, p2), (4, p3)] {
            if m & bit != 0 {
                s[at..at + l].copy_from_slice(&d[at..at + l]);
            }
        }
        if m & 8 != 0 {
            s[pv] = 2;
        }
        if s == *a {
            return Ok(());
        }
        let r = verify(&arcs[0].bytes(), &pk, &s)?;
        o.state((m, &r));
        ensure!(r.is_err(), "accepted");
        Ok(())
    });
    // signing an archive without files is refused
    ck.explore("no-files", "archives without files, both versions", V, |v, o| {
        let a = arc(&[("prefix", "p")], &[]);
        let mut p = open(&a.bytes())?;
        let r = key(KEY_A)?.sign(&mut p, *v);
        o.state(r.is_err());
        ensure!(r.is_err(), "an empty archive gets signed");
        Ok(())
    });
}

/// A04: key and signature files.
pub fn key_files(ck: &Ck) {
    let auths: Vec<String> = vec!["".into(), "a".into(), "alpha".into(), "tst_1.2.3-abcdef01".into(), "é x".into(), "n".repeat(300)];
    // serialise -> parse -> serialise for crafted key material: every pattern of leading zero bytes in every field
    let fields = ["n", "p", "q", "dp", "dq", "qinv", "d"];
    let mut cases = vec![];
    for len in [16usize, 32, 512, 1024, 2048] {
        for m in 0u32..(1 << fields.len()) {
            for z in [1usize, 2] {
                cases.push((len, m, z, (m as usize + z) % auths.len()));
            }
        }
    }
    let a = &auths;
    ck.explore("private-key-file", "every combination of key fields with 1 or 2 leading zero bytes x key lengths x authorities: reading then writing is the identity and the public part agrees", cases, |&(len, m, z, ai), o| {
        let mut b = a[ai].as_bytes().to_vec();
        b.push(0);
        b.extend((len as u32 / 16 * 9 + 20).to_le_bytes());
        b.extend(b"\x07\x02\x00\x00\x00\x24\x00\x00RSA2");
        b.extend((len as u32).to_le_bytes());
        b.extend(65537u32.to_le_bytes());
        let mut n = vec![];
        for (i, f) in fields.iter().enumerate() {
            let size = if *f == "n" || *f == "d" { len / 8 } else { len / 16 };
            let mut v = fill(size, i as u32 + 1);
            for x in &mut v {
                *x |= 1;
            }
            if m >> i & 1 == 1 {
                let s = v.len();
                for x in v.iter_mut().skip(s.saturating_sub(z)) {
                    *x = 0;
                }
            }
            if *f == "n" {
                n = v.clone();
            }
            b.extend(v);
        }
        let k = BIPrivateKey::read(&mut &b[..]).map_err(|e| e.to_string())?;
        let mut out = vec![];
        k.write_danger(&mut out).map_err(|e| e.to_string())?;
        o.state(&out);
        ensure!(out == b, "private key changes when read and written");
        let p = k.to_public_key();
        ensure_eq!(p.authority(), a[ai], "authority");
        ensure_eq!(p.length() as usize, len, "length");
        ensure_eq!(p.modulus(), &BigUint::from_bytes_le(&n), "modulus");
        ensure_eq!(p.exponent(), &BigUint::from(65537u32), "exponent");
        let pb = pub_bytes(&p)?;
        let mut want = a[ai].as_bytes().to_vec();
        want.push(0);
        want.extend((len as u32 / 8 + 20).to_le_bytes());
        want.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
        want.extend((len as u32).to_le_bytes());
        want.extend(65537u32.to_le_bytes());
        want.extend(&n);
        ensure!(pb == want, "public key file differs from the reference");
        let q = BIPublicKey::read(&mut &pb[..]).map_err(|e| e.to_string())?;
        ensure!(q.authority() == p.authority() && q.length() == p.length() && q.modulus() == p.modulus() && q.exponent() == p.exponent(), "public key changes through its file");
        o.steps(3);
        Ok(())
    });
    // exponents
    ck.explore("exponents", "every single-bit and small public exponent", (0..32u32).map(|i| 1u32 << i).chain(0..20).chain([65537, u32::MAX]), |&e, o| {
        let mut b = b"x\0".to_vec();
        b.extend((512u32 / 8 + 20).to_le_bytes());
        b.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
        b.extend(512u32.to_le_bytes());
        b.extend(e.to_le_bytes());
        b.extend(fill(64, 3));
        let q = BIPublicKey::read(&mut &b[..]).map_err(|e| e.to_string())?;
        o.state(e);
        ensure_eq!(q.exponent(), &BigUint::from(e), "exponent");
        ensure!(pub_bytes(&q)? == b, "key file changes");
        Ok(())
    });
    // signature files: every leading-zero pattern of the values
    let mut cases = vec![];
    for len in [304usize, 512, 1024, 2048] {
        for m in 0u32..16 {
            for z in [1usize, 2, 1000] {
                for v in [0u32, 1, 2, 3, 4, 258] {
                    cases.push((len, m, z, v));
                }
            }
        }
    }
    ck.explore("signature-file", "every combination of signature fields with leading zero bytes x lengths x version numbers: identity for versions 2 and 3, refused otherwise", cases, |&(len, m, z, v), o| {
        let size = len / 8;
        let field = |i: u32| {
            let mut x = fill(size, i + 40);
            if m >> i & 1 == 1 {
                let s = x.len();
                for y in x.iter_mut().skip(s.saturating_sub(z)) {
                    *y = 0;
                }
            }
            x
        };
        let mut b = b"auth\0".to_vec();
        b.extend((len as u32 / 8 + 20).to_le_bytes());
        b.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
        b.extend((len as u32).to_le_bytes());
        b.extend(65537u32.to_le_bytes());
        b.extend(field(0));
        b.extend((size as u32).to_le_bytes());
        b.extend(field(1));
        b.extend(v.to_le_bytes());
        b.extend((size as u32).to_le_bytes());
        b.extend(field(2));
        b.extend((size as u32).to_le_bytes());
        b.extend(field(3));
        let r = no_panic(|| BISign::read(&mut &b[..]))?;
        o.state((r.is_ok(), &b));
        ensure_eq!(r.is_ok(), v == 2 || v == 3, "accepting version {v}");
        if let Ok(s) = r {
            ensure!(sig_bytes(&s)? == b, "signature file changes when read and written");
            ensure_eq!(u32::from(s.version()), v, "version");
            let (x, y, w) = s.signatures();
            ensure!(x == &BigUint::from_bytes_le(&field(1)) && y == &BigUint::from_bytes_le(&field(2)) && w == &BigUint::from_bytes_le(&field(3)), "values");
            ensure_eq!(s.modulus(), &BigUint::from_bytes_le(&field(0)), "modulus");
        }
        Ok(())
    });
    // malformed files: every truncation, every size field corruption
    let pk = pub_bytes(&key(KEY_A).expect("key").to_public_key()).expect("pk");
    let sg = ref_bisign(&base_arc(), &ref_key(KEY_A), BISignVersion::V3);
    let files: Vec<(&'static str, Vec<u8>)> = vec![("private", KEY_A.to_vec()), ("public", pk), ("signature", sg)];
    let mut cases: Vec<(usize, usize, u8)> = vec![];
    for (f, (_, b)) in files.iter().enumerate() {
        for cut in 0..b.len() {
            cases.push((f, cut, 0));
        }
        let name = b.iter().position(|x| *x == 0).unwrap() + 1;
        for i in name..name + 24 {
            for x in 1..=255u8 {
                cases.push((f, i, x));
            }
        }
    }
    ck.explore("malformed", "every truncation of a key or signature file is refused; every byte of the fixed fields xor every mask gives an error or a value that is written with the altered field, never a crash", cases, |&(f, i, x), o| {
        let mut b = files[f].1.clone();
        if x == 0 {
            b.truncate(i);
        } else {
            b[i] ^= x;
        }
        let ok = no_panic(|| match files[f].0 {
            "private" => BIPrivateKey::read(&mut &b[..]).map(|k| { let mut v = vec![]; k.write_danger(&mut v).expect("write"); v }),
            "public" => BIPublicKey::read(&mut &b[..]).map(|k| pub_bytes(&k).expect("write")),
            _ => BISign::read(&mut &b[..]).map(|s| sig_bytes(&s).expect("write")),
        })?;
        let refused = ok.is_err();
        if let (Ok(w), true) = (&ok, x != 0) {
            // what is accepted is what is written again, except the marks of the format, which are not read
            let (mut w, mut b) = (w.clone(), b.clone());
            let name = b.iter().position(|x| *x == 0).unwrap() + 1;
            w[name + 4..name + 16].fill(0);
            b[name + 4..name + 16].fill(0);
            ensure!(w == b[..w.len()], "byte {i} of the {} file xor {x} is accepted, and lost", files[f].0);
        }
        o.state((f, errname(&ok.map(|_| ()))));
        ensure!(x != 0 || refused, "a truncated file is accepted");
        Ok(())
    });
    // freshly generated keys work (the primes are random; the outcome must not depend on them)
    let lens = ck.t(vec![512usize, 1024], vec![512, 768, 1024, 1024, 1536, 2048]);
    ck.explore("generated-keys", "a fresh key of each length signs, verifies and survives its file formats", lens.into_iter().enumerate().collect::<Vec<_>>(), |&(_, len), o| {
        let k = BIPrivateKey::generate(len as u32, "fresh").map_err(|e| e.to_string())?;
        let mut kb = vec![];
        k.write_danger(&mut kb).map_err(|e| e.to_string())?;
        let k2 = key(&kb)?;
        let pb = pub_bytes(&k.to_public_key())?;
        ensure!(pb == pub_bytes(&k2.to_public_key())?, "public part changes through the private key file");
        let a = base_arc();
        let mut p = open(&a.bytes())?;
        let s1 = sig_bytes(&k.sign(&mut p, BISignVersion::V3).map_err(|e| e.to_string())?)?;
        let s2 = sig_bytes(&k2.sign(&mut p, BISignVersion::V3).map_err(|e| e.to_string())?)?;
        ensure!(s1 == s2, "the reloaded private key signs differently");
        ensure!(s1 == ref_bisign(&a, &ref_key(&kb), BISignVersion::V3), "signature differs from the reference");
        ensure_eq!(verify(&a.bytes(), &pb, &s1)?, Ok(()), "verification");
        o.state(len);
        Ok(())
    });
}
