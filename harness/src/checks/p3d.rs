//! B05: P3D models round trip. B06: missing file report.
use crate::fw::*;
use crate::{ensure, ensure_eq};
use hemtt_common::config::PDriveOption;
use hemtt_p3d::{Face, Point, SearchCache, Vertex, LOD, P3D};
use hemtt_workspace::{LayerType, Workspace};
use std::collections::BTreeSet;
use std::io::{Cursor, Write};

// independent description of a model and its encoding
#[derive(Clone, Debug, PartialEq)]
struct F { verts: Vec<(u32, u32, u32, u32)>, flags: u32, tex: String, mat: String }
#[derive(Clone, Debug, PartialEq)]
struct L { major: u32, minor: u32, points: Vec<[u32; 4]>, normals: Vec<[u32; 3]>, faces: Vec<F>, taggs: Vec<(String, Vec<u8>)>, res: u32 }
#[derive(Clone, Debug, PartialEq)]
struct M { version: u32, lods: Vec<L> }

fn encode(m: &M) -> Vec<u8> {
    let mut b = b"MLOD".to_vec();
    let u = |b: &mut Vec<u8>, v: u32| b.extend(v.to_le_bytes());
    u(&mut b, m.version);
    u(&mut b, m.lods.len() as u32);
    for l in &m.lods {
        b.extend(b"P3DM");
        u(&mut b, l.major); u(&mut b, l.minor);
        u(&mut b, l.points.len() as u32); u(&mut b, l.normals.len() as u32); u(&mut b, l.faces.len() as u32);
        u(&mut b, 0);
        for p in &l.points { for v in p { u(&mut b, *v); } }
        for p in &l.normals { for v in p { u(&mut b, *v); } }
        for f in &l.faces {
            u(&mut b, f.verts.len() as u32);
            for k in 0..4 {
                let v = f.verts.get(k).copied().unwrap_or_default();
                u(&mut b, v.0); u(&mut b, v.1); u(&mut b, v.2); u(&mut b, v.3);
            }
            u(&mut b, f.flags);
            b.extend(f.tex.as_bytes()); b.push(0);
            b.extend(f.mat.as_bytes()); b.push(0);
        }
        b.extend(b"TAGG");
        for (n, d) in &l.taggs { b.push(1); b.extend(n.as_bytes()); b.push(0); u(&mut b, d.len() as u32); b.extend(d); }
        b.push(1); b.extend(b"#EndOfFile#\0"); u(&mut b, 0);
        u(&mut b, l.res);
    }
    b
}
fn to_impl(m: &M) -> P3D {
    P3D {
        version: m.version,
        lods: m.lods.iter().map(|l| LOD {
            version_major: l.major, version_minor: l.minor, resolution: f32::from_bits(l.res),
            points: l.points.iter().map(|p| Point { coords: (f32::from_bits(p[0]), f32::from_bits(p[1]), f32::from_bits(p[2])), flags: p[3] }).collect(),
            face_normals: l.normals.iter().map(|p| (f32::from_bits(p[0]), f32::from_bits(p[1]), f32::from_bits(p[2]))).collect(),
            faces: l.faces.iter().map(|f| Face { vertices: f.verts.iter().map(|v| Vertex { point_index: v.0, normal_index: v.1, uv: (f32::from_bits(v.2), f32::from_bits(v.3)) }).collect(), flags: f.flags, texture: f.tex.clone(), material: f.mat.clone() }).collect(),
            taggs: l.taggs.iter().map(|(n, d)| (n.clone(), d.clone().into_boxed_slice())).collect(),
        }).collect(),
    }
}
fn from_impl(p: &P3D) -> M {
    M {
        version: p.version,
        lods: p.lods.iter().map(|l| L {
            major: l.version_major, minor: l.version_minor, res: l.resolution.to_bits(),
            points: l.points.iter().map(|p| [p.coords.0.to_bits(), p.coords.1.to_bits(), p.coords.2.to_bits(), p.flags]).collect(),
            normals: l.face_normals.iter().map(|p| [p.0.to_bits(), p.1.to_bits(), p.2.to_bits()]).collect(),
            faces: l.faces.iter().map(|f| F { verts: f.vertices.iter().map(|v| (v.point_index, v.normal_index, v.uv.0.to_bits(), v.uv.1.to_bits())).collect(), flags: f.flags, tex: f.texture.clone(), mat: f.material.clone() }).collect(),
            taggs: l.taggs.iter().map(|(n, d)| (n.clone(), d.to_vec())).collect(),
        }).collect(),
    }
}
fn both_ways(m: &M, chunk: usize, o: &mut Obs) -> R {
    let b = encode(m);
    let r = if chunk == 0 { P3D::read(&mut Cursor::new(&b)) } else { P3D::read(&mut super::pbo::Chunky::new(b.clone(), chunk)) };
    let r = r.map_err(|e| format!("refused a well-formed model: {e}"))?;
    let got = from_impl(&r);
    ensure!(&got == m, "read as {} instead of {}", clip(&format!("{got:?}"), 500), clip(&format!("{m:?}"), 500));
    let mut out = vec![];
    r.write(&mut out).map_err(|e| format!("writing refused: {e}"))?;
    ensure!(out == b, "reading and writing does not give the file back ({} bytes, expected {})", out.len(), b.len());
    let mut out = super::pbo::ChunkyW { out: vec![], chunk: chunk.max(1) };
    to_impl(m).write(&mut out).map_err(|e| format!("writing refused: {e}"))?;
    ensure!(out.out == b, "writing gives a different file ({} bytes, expected {})", out.out.len(), b.len());
    o.state(&b);
    o.steps(1);
    Ok(())
}

fn faces() -> Vec<F> {
    let v = |k: u32| (k, k * 7 + 1, f32::to_bits(k as f32 / 3.0), 0x8000_0000 + k);
    vec![
        F { verts: vec![v(0), v(1), v(2)], flags: 0, tex: String::new(), mat: String::new() },
        F { verts: vec![v(3), v(2), v(1), v(u32::MAX / 8)], flags: u32::MAX, tex: "\\z\\a\\t_co.paa".into(), mat: "z\\a\\m.rvmat".into() },
        F { verts: vec![v(9), v(8), v(7)], flags: 0x0102_0304, tex: "#(argb,8,8,3)color(1,1,1,1)".into(), mat: "x".repeat(300) },
        F { verts: vec![v(1), v(1), v(1), v(1)], flags: 1, tex: "é\u{1F600}".into(), mat: "TAGG".into() },
    ]
}
fn lod(np: usize, nn: usize, f: &[F], t: &[(String, Vec<u8>)], res: u32) -> L {
    L { major: 28, minor: 256, points: (0..np as u32).map(|i| [i, 0x7fc0_0001, 0xff80_0000 ^ i, i << 24]).collect(), normals: (0..nn as u32).map(|i| [0x3f80_0000 + i, i, !i]).collect(), faces: f.to_vec(), taggs: t.to_vec(), res }
}
fn taggs() -> Vec<(String, Vec<u8>)> {
    vec![("#Property#".into(), fill(128, 1)), ("sel 1".into(), vec![]), ("#SharpEdges#".into(), vec![0, 1, 2, 3, 4, 5, 6, 7]), ("é".into(), b"#EndOfFile#\0\0\0\0\0".to_vec()), ("#EndOfFile".into(), vec![1])]
}

/// A model with a bit of everything
pub fn sample() -> Vec<u8> {
    let (fs, ts) = (faces(), taggs());
    encode(&M { version: 257, lods: vec![lod(2, 1, &fs[..3], &ts[..3], 7), lod(1, 2, &fs[3..], &ts[3..], 8)] })
}
pub fn textured(t: &[&str]) -> Vec<u8> {
    let f: Vec<F> = t.iter().map(|t| F { verts: vec![(0, 0, 0, 0); 3], flags: 0, tex: (*t).to_string(), mat: String::new() }).collect();
    encode(&M { version: 257, lods: vec![lod(0, 0, &f, &[], 7)] })
}
pub fn model_check(ck: &Ck) {
    ck.assume("only active selections, at most 3 LODs, strings valid UTF-8 without zero bytes");
    let fs = faces();
    let ts = taggs();
    let mut lods: Vec<L> = vec![];
    for np in 0..=2 { for nn in 0..=2 { for f in seqs(&[0usize, 1, 2, 3], 0, ck.t(2, 3)) { for t in subsets(&[0usize, 1, 2, 3, 4], 0, ck.t(2, 3)) {
        lods.push(lod(np, nn, &f.iter().map(|&i| fs[i].clone()).collect::<Vec<_>>(), &t.iter().map(|&i| ts[i].clone()).collect::<Vec<_>>(), 0x3f80_0000 ^ (np as u32) << 20));
    } } } }
    ck.explore("one-lod", "every LOD of up to 2 points, 2 normals, k faces of four kinds and a set of taggs: read, written and read back exactly", (0..lods.len()).collect::<Vec<_>>(), |&i, o| {
        let m = M { version: 257, lods: vec![lods[i].clone()] };
        both_ways(&m, 0, o)
    });
    let small: Vec<L> = vec![lod(0, 0, &[], &[], 0), lod(1, 1, &fs[..1], &ts[..1], 0x7149_f2ca), lod(2, 1, &fs[1..3], &ts[1..3], 0xffff_ffff), lod(0, 2, &fs[3..], &ts[3..], 0x3f80_0000)];
    let mut cs = vec![];
    for s in seqs(&[0usize, 1, 2, 3], 0, 3) { for v in [0u32, 257, u32::MAX] { for chunk in [0usize, 1, 2, 3, 5, 4096] { cs.push((s.clone(), v, chunk)); } } }
    ck.explore("lod-sequences", "every sequence of up to 3 LODs of four kinds x version x read/write chunking", cs, |(s, v, chunk), o| {
        both_ways(&M { version: *v, lods: s.iter().map(|&i| small[i].clone()).collect() }, *chunk, o)
    });
    let orders = permutations(&[0usize, 1, 2, 3, 4]);
    ck.explore("tagg-orders", "every order of five taggs is kept", orders, |p, o| both_ways(&M { version: 257, lods: vec![lod(1, 1, &fs[..1], &p.iter().map(|&i| ts[i].clone()).collect::<Vec<_>>(), 7)] }, 0, o));
    ck.explore("repeated-taggs", "two or three taggs of the same name (as named properties are stored) survive", vec![2usize, 3], |&n, o| {
        let t: Vec<(String, Vec<u8>)> = (0..n).map(|i| ("#Property#".to_string(), fill(128, 50 + i as u32))).collect();
        let m = M { version: 257, lods: vec![lod(0, 0, &[], &t, 7)] };
        let b = encode(&m);
        let r = P3D::read(&mut Cursor::new(&b)).map_err(|e| e.to_string())?;
        let mut out = vec![];
        r.write(&mut out).map_err(|e| e.to_string())?;
        o.state(&out); o.steps(1);
        ensure!(out == b, "{n} properties become {}", from_impl(&r).lods[0].taggs.len());
        Ok(())
    });
    let m = M { version: 257, lods: vec![small[1].clone(), small[2].clone()] };
    let b = encode(&m);
    ck.explore("truncation", "every proper prefix of a model is refused", 0..b.len(), |&n, o| {
        o.steps(1); o.state(n);
        ensure!(P3D::read(&mut Cursor::new(&b[..n])).is_err(), "accepted the first {n} of {} bytes", b.len());
        Ok(())
    });
    let masks: Vec<u8> = ck.t(vec![1, 2, 4, 8, 16, 32, 64, 128, 255], (1..=255).collect());
    ck.explore("corruption", "every byte xor every mask and every 4-byte window set to extreme values: a model or an error, never a crash or runaway allocation; what is accepted can be written", 0..b.len(), |&i, o| {
        let mut vs: Vec<Vec<u8>> = masks.iter().map(|x| { let mut g = b.clone(); g[i] ^= x; g }).collect();
        if i + 4 <= b.len() { for v in [u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x2000_0000, 0x0100_0000, 5] { let mut g = b.clone(); g[i..i + 4].copy_from_slice(&v.to_le_bytes()); vs.push(g); } }
        for g in vs {
            let r = P3D::read(&mut Cursor::new(&g));
            o.steps(1); o.state(r.is_ok());
            if let Ok(p) = r { let mut out = vec![]; p.write(&mut out).map_err(|e| format!("accepted model can not be written: {e}"))?; }
        }
        Ok(())
    });
    ck.explore("face-vertices", "faces with every vertex count but 3 and 4 are refused by the reader and the writer", (0..12u32).chain([u32::MAX]), |&n, o| {
        let mut m = M { version: 1, lods: vec![lod(0, 0, &fs[..1], &[], 0)] };
        let mut b = encode(&m);
        let at = 12 + 28;
        b[at..at + 4].copy_from_slice(&n.to_le_bytes());
        let ok = n == 3 || n == 4;
        ensure_eq!(P3D::read(&mut Cursor::new(&b)).is_ok(), ok, "reading a face with {n} vertices");
        if n < 100 {
            m.lods[0].faces[0].verts = vec![(1, 2, 3, 4); n as usize];
            let mut out = vec![];
            ensure_eq!(to_impl(&m).write(&mut out).is_ok(), ok, "writing a face with {n} vertices");
        }
        o.steps(1); o.state(n);
        Ok(())
    });
    ck.explore("magics", "every other type marker of file, LOD and tagg section is refused", {
        let mut v = vec![]; for pos in 0..3usize { for c in 0..4usize { for x in 1..=255u8 { v.push((pos, c, x)); } } } v
    }, |&(pos, c, x), o| {
        let m = M { version: 1, lods: vec![lod(0, 0, &[], &[], 0)] };
        let mut b = encode(&m);
        let at = [0usize, 12, 40][pos];
        b[at + c] ^= x;
        o.steps(1); o.state((pos, c));
        ensure!(P3D::read(&mut Cursor::new(&b)).is_err(), "accepted marker {:?}", &b[at..at + 4]);
        Ok(())
    });
}

pub fn missing_check(ck: &Ck) {
    ck.assume("file names in the case they are stored; the process runs in an empty directory");
    // names a face can use, and the files of the project
    let used = ["a.paa", "b.tga", "c.png", "\\z\\x\\d.paa", "z\\x\\e.png", "#(argb,8,8,3)color(0,0,0,1)", "", "n.jpg", "\\sub\\f.paa", "#s.paa"];
    let files = ["a.paa", "a.tga", "b.tga", "b.paa", "c.png", "c.paa", "c.tga", "addons/x/d.paa", "addons/x/d.tga", "addons/x/e.paa", "n.jpg", "n.paa", "sub/f.tga", "s.paa"];
    let mats = ["", "m.rvmat", "\\z\\x\\p.rvmat", "#m.rvmat", "q.png"];
    let mfiles = ["m.rvmat", "addons/x/p.rvmat", "q.paa"];
    let norm = |t: &str| if t.starts_with('\\') { t.to_string() } else { format!("\\{t}") };
    let resolve = |t: &str| -> String { // virtual path -> project file
        let t = t.trim_start_matches('\\').replace('\\', "/");
        t.strip_prefix("z/x/").map_or(t.clone(), |r| format!("addons/x/{r}"))
    };
    let ws = |fs: &[&str]| -> Result<hemtt_workspace::WorkspacePath, String> {
        let mem: vfs::VfsPath = vfs::MemoryFS::new().into();
        let put = |p: &str, c: &str| -> Result<(), String> {
            let f = mem.join(p).map_err(|e| e.to_string())?;
            f.parent().create_dir_all().map_err(|e| e.to_string())?;
            f.create_file().map_err(|e| e.to_string())?.write_all(c.as_bytes()).map_err(|e| e.to_string())
        };
        put("addons/x/$PBOPREFIX$", "z\\x")?;
        for f in fs { put(f, "x")?; }
        Workspace::create(mem.clone(), vec![(mem, LayerType::Source)], None, true, &PDriveOption::Disallow).map_err(|e| e.to_string())
    };
    let want = |fs: &[&str], t: &str, texture: bool| -> bool { // is it there?
        let has = |p: &str| fs.contains(&p);
        let p = resolve(t);
        if has(&p) { return true; }
        if !texture { return false; }
        if let Some(b) = p.strip_suffix(".paa") { has(&format!("{b}.tga")) }
        else if let Some(b) = p.strip_suffix(".tga") { has(&format!("{b}.paa")) }
        else if let Some(b) = p.strip_suffix(".png") { has(&format!("{b}.paa")) }
        else { false }
    };
    let p3d = |ts: &[&str], ms: &[&str]| -> P3D {
        let n = ts.len().max(ms.len());
        let fsx: Vec<F> = (0..n).map(|i| F { verts: vec![(0, 0, 0, 0); 3], flags: 0, tex: ts.get(i).unwrap_or(&"").to_string(), mat: ms.get(i).unwrap_or(&"").to_string() }).collect();
        // spread over two LODs
        let k = n / 2;
        to_impl(&M { version: 257, lods: vec![lod(0, 0, &fsx[..k], &[], 0), lod(0, 0, &fsx[k..], &[], 1)] })
    };
    let check = |fs: &[&str], ts: &[&str], ms: &[&str], cache: &SearchCache, w: &hemtt_workspace::WorkspacePath, o: &mut Obs| -> R {
        let (mt, mm) = p3d(ts, ms).missing(w, cache).map_err(|e| format!("{e}"))?;
        let wt: BTreeSet<String> = ts.iter().filter(|t| !t.is_empty() && !t.starts_with('#') && !want(fs, t, true)).map(|t| norm(t)).collect();
        let wm: BTreeSet<String> = ms.iter().filter(|t| !t.is_empty() && !want(fs, t, false)).map(|t| norm(t)).collect();
        let gt: BTreeSet<String> = mt.iter().cloned().collect();
        let gm: BTreeSet<String> = mm.iter().cloned().collect();
        ensure_eq!(gt, wt, "missing textures of {ts:?} with files {fs:?}");
        ensure_eq!(gm, wm, "missing materials of {ms:?} with files {fs:?}");
        ensure_eq!(mt.len(), gt.len(), "a texture is reported twice");
        ensure_eq!(mm.len(), gm.len(), "a material is reported twice");
        o.state((&gt, &gm));
        o.steps((ts.len() + ms.len()) as u64);
        Ok(())
    };
    ck.explore("textures", "every set of up to 4 project files (of 14) x every texture reference alone, all together and again with the search cache filled", subsets(&files, 0, ck.t(4, 6)), |fs, o| {
        let w = ws(fs)?;
        for t in used { check(fs, &[t], &[], &SearchCache::new(), &w, o)?; }
        let c = SearchCache::new();
        check(fs, &used, &[], &c, &w, o)?;
        check(fs, &used, &[], &c, &w, o)?;
        let mut rev = used; rev.reverse();
        check(fs, &rev, &[], &c, &w, o)
    });
    ck.explore("materials", "every set of project files x every pair of material references, cold and warm cache", subsets(&mfiles, 0, 3), |fs, o| {
        let w = ws(fs)?;
        for a in mats { for b in mats { let c = SearchCache::new(); check(fs, &[], &[a, b], &c, &w, o)?; check(fs, &[], &[b, a], &c, &w, o)?; check(fs, &["a.paa"], &[b, a], &c, &w, o)?; } }
        Ok(())
    });
    ck.explore("cache-history", "every sequence of models that share one cache, over every extension of one texture, a second texture with two extensions and two materials, and every set of files", seqs(&(0..7usize).collect::<Vec<_>>(), 1, ck.t(3, 4)), |s, o| {
        for fs in subsets(&["a.paa", "a.tga", "a.png", "b.tga", "m.rvmat"], 0, 5) {
            let w = ws(&fs)?;
            let c = SearchCache::new();
            for &t in s { check(&fs, &[["a.tga", "a.png", "a.paa", "b.png", "b.paa", "", ""][t]], &[["", "", "m.rvmat", "", "k.rvmat", "m.rvmat", "k.rvmat"][t]], &c, &w, o)?; }
        }
        Ok(())
    });
}
