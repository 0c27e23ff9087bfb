//! B03: written PAA textures. B04: reading PAA textures from any tool.
use crate::fw::*;
use crate::{ensure, ensure_eq};
use hemtt_paa::{Paa, PaXType};
use image::RgbaImage;
use std::io::Cursor;

fn rgb565(v: u16) -> [u32; 3] {
    let r = u32::from(v >> 11);
    let g = u32::from(v >> 5 & 63);
    let b = u32::from(v & 31);
    [(r << 3) | (r >> 2), (g << 2) | (g >> 4), (b << 3) | (b >> 2)]
}
/// Reference block decoder (S3TC: BC1 = DXT1, BC2 = DXT3, BC3 = DXT5).
fn block(kind: u8, d: &[u8]) -> [[u8; 4]; 16] {
    let mut px = [[0u8; 4]; 16];
    let c = if kind == 1 { d } else { &d[8..] };
    let (a, b) = (u16::from_le_bytes([c[0], c[1]]), u16::from_le_bytes([c[2], c[3]]));
    let (ca, cb) = (rgb565(a), rgb565(b));
    let idx = u32::from_le_bytes([c[4], c[5], c[6], c[7]]);
    let three = kind == 1 && a <= b;
    for (i, p) in px.iter_mut().enumerate() {
        let s = idx >> (2 * i) & 3;
        for k in 0..3 {
            let (x, y) = (ca[k], cb[k]);
            p[k] = match (s, three) {
                (0, _) => x,
                (1, _) => y,
                (2, true) => (x + y) / 2,
                (_, true) => 0,
                (2, false) => (2 * x + y) / 3,
                (_, false) => (x + 2 * y) / 3,
            } as u8;
        }
        p[3] = if three && s == 3 { 0 } else { 255 };
    }
    match kind {
        3 => {
            for (i, p) in px.iter_mut().enumerate() {
                let n = d[i / 2] >> (4 * (i % 2)) & 15;
                p[3] = n * 17;
            }
        }
        5 => {
            let (a0, a1) = (u32::from(d[0]), u32::from(d[1]));
            let bits = (0..6).fold(0u64, |v, i| v | u64::from(d[2 + i]) << (8 * i));
            for (i, p) in px.iter_mut().enumerate() {
                let s = (bits >> (3 * i) & 7) as u32;
                p[3] = match s {
                    0 => a0,
                    1 => a1,
                    s if a0 > a1 => ((8 - s) * a0 + (s - 1) * a1) / 7,
                    6 => 0,
                    7 => 255,
                    s => ((6 - s) * a0 + (s - 1) * a1) / 5,
                } as u8;
            }
        }
        _ => {}
    }
    px
}
pub fn ref_image(kind: u8, w: usize, h: usize, d: &[u8]) -> Vec<u8> {
    let bs = if kind == 1 { 8 } else { 16 };
    let bw = w.div_ceil(4);
    let mut out = vec![0u8; w * h * 4];
    for y in 0..h {
        for x in 0..w {
            let b = (y / 4) * bw + x / 4;
            let px = block(kind, &d[b * bs..b * bs + bs]);
            out[(y * w + x) * 4..(y * w + x) * 4 + 4].copy_from_slice(&px[(y % 4) * 4 + x % 4]);
        }
    }
    out
}
fn data_len(kind: u8, w: usize, h: usize) -> usize {
    w.div_ceil(4) * h.div_ceil(4) * if kind == 1 { 8 } else { 16 }
}

struct Parsed {
    magic: [u8; 2],
    taggs: Vec<(String, Vec<u8>)>,
    after: usize,
}
fn parse(b: &[u8]) -> Result<Parsed, String> {
    let mut p = 2;
    let mut taggs = vec![];
    while b.len() >= p + 4 && &b[p..p + 4] == b"GGAT" {
        ensure!(b.len() >= p + 12, "cut tagg");
        let name = String::from_utf8_lossy(&b[p + 4..p + 8]).to_string();
        let n = u32::from_le_bytes([b[p + 8], b[p + 9], b[p + 10], b[p + 11]]) as usize;
        ensure!(b.len() >= p + 12 + n, "cut tagg body");
        taggs.push((name, b[p + 12..p + 12 + n].to_vec()));
        p += 12 + n;
    }
    Ok(Parsed { magic: [b[0], b[1]], taggs, after: p })
}

fn check_written(img: &RgbaImage, tol_c: i32, tol_a: i32, o: &mut Obs) -> R {
    let mut b = vec![];
    Paa::write(img, &mut b).map_err(|e| format!("refused: {e}"))?;
    let (w, h) = (img.width() as usize, img.height() as usize);
    let p = parse(&b)?;
    ensure_eq!(p.magic, [0x05, 0xff], "type");
    let names: Vec<&str> = p.taggs.iter().map(|t| t.0.as_str()).collect();
    ensure_eq!(names, vec!["AVGC", "CXAM", "SFFO"], "taggs");
    let n = (w * h) as u64;
    let mut avg = [0u64; 4];
    let mut max = [0u8; 4];
    for q in img.pixels() {
        for k in 0..4 {
            avg[k] += u64::from(q.0[k]);
            max[k] = max[k].max(q.0[k]);
        }
    }
    ensure_eq!(p.taggs[0].1, avg.map(|v| (v / n) as u8).to_vec(), "average colour");
    ensure_eq!(p.taggs[1].1, max.to_vec(), "maximum colour");
    let offs = &p.taggs[2].1;
    ensure_eq!(offs.len(), 64, "offset table size");
    let off = u32::from_le_bytes([offs[0], offs[1], offs[2], offs[3]]) as usize;
    ensure!(offs[4..].iter().all(|&x| x == 0), "one mipmap, but more offsets");
    ensure!(off >= p.after && off + 7 <= b.len(), "offset {off} does not point behind the taggs ({}) and into the file ({})", p.after, b.len());
    ensure_eq!(u16::from_le_bytes([b[off], b[off + 1]]) as usize, w, "width");
    ensure_eq!(u16::from_le_bytes([b[off + 2], b[off + 3]]) as usize, h, "height");
    let len = b[off + 4] as usize | (b[off + 5] as usize) << 8 | (b[off + 6] as usize) << 16;
    ensure_eq!(len, data_len(5, w, h), "data length");
    ensure_eq!(off + 7 + len, b.len(), "end of file");
    let pix = ref_image(5, w, h, &b[off + 7..]);
    // pixels
    for (i, q) in img.pixels().enumerate() {
        for k in 0..4 {
            let d = (i32::from(q.0[k]) - i32::from(pix[4 * i + k])).abs();
            let tol = if k == 3 { tol_a } else { tol_c };
            // colour of a fully transparent pixel carries no information
            ensure!(d <= tol || (k < 3 && q.0[3] == 0), "pixel {i} channel {k}: {} stored as {} ({w}x{h})", q.0[k], pix[4 * i + k]);
        }
    }
    // and the reader agrees with the reference decoder
    let r = Paa::read(Cursor::new(&b)).map_err(|e| format!("own output refused: {e}"))?;
    ensure_eq!(*r.format(), PaXType::DXT5, "format");
    ensure_eq!(r.maps().len(), 1, "mipmaps");
    let m = &r.maps()[0];
    ensure!(!m.is_compressed() && m.width() as usize == w && m.height() as usize == h, "mipmap header");
    let g = m.get_image();
    ensure_eq!((g.width() as usize, g.height() as usize), (w, h), "image size");
    ensure!(g.to_rgba8().as_raw() == &pix, "reader and reference decoder disagree");
    for (k, v) in &p.taggs {
        ensure!(r.taggs().get(k) == Some(v), "tagg {k} is read back differently");
    }
    o.state(&b);
    o.steps(n);
    Ok(())
}

pub fn write_check(ck: &Ck) {
    ck.assume("images up to 2048 pixels in one dimension; DXT5 quality is only bounded for blocks of at most two colours");
    let mut dims = vec![];
    let m = ck.t(13u32, 21);
    for w in 1..=m { for h in 1..=m { for k in 0..3u8 { dims.push((w, h, k)); } } }
    for k in 0..2u8 { for (w, h) in [(256, 1), (1, 256), (255, 4), (4, 255), (257, 3), (2048, 1), (1, 2048), (64, 64), (128, 32), (1024, 4)] { dims.push((w, h, k)); } }
    ck.explore("dimensions", "every image size up to the bound and long thin ones x content (flat, every block a different flat colour, two colours with transparency)", dims, |&(w, h, k), o| {
        let mut img = RgbaImage::new(w, h);
        for (x, y, p) in img.enumerate_pixels_mut() {
            let b = (y / 4) * 31 + (x / 4) * 7;
            p.0 = match k {
                0 => [200, 100, 50, 255],
                1 => [(b * 37) as u8, (b * 101 + 13) as u8, (b * 59 + 200) as u8, 255 - (b % 50) as u8],
                _ => if (x + 2 * y) % 3 == 0 { [255, 255, 255, 255] } else { [0, 0, 0, 128] },
            };
        }
        check_written(&img, if k == 2 { 16 } else { 6 }, 0, o)
    });
    let lv: Vec<u8> = ck.t(vec![0, 1, 4, 8, 63, 127, 128, 200, 247, 254, 255], (0..=255).step_by(5).chain([1, 4, 8, 127, 128, 254]).collect());
    let mut cols = vec![];
    for &r in &lv { for &g in &lv { for &b in &lv { cols.push((r, g, b)); } } }
    ck.explore("flat-colours", "every colour of the level grid x alpha 1, 128, 255, as a 4x4 image", cols, |&(r, g, b), o| {
        for a in [1u8, 128, 255] {
            let img = RgbaImage::from_pixel(4, 4, image::Rgba([r, g, b, a]));
            check_written(&img, 6, 0, o)?;
        }
        Ok(())
    });
    let mut al = vec![];
    for a in (0..=255u16).step_by(ck.t(5, 1)) { for b in (0..=255u16).step_by(ck.t(5, 1)) { al.push((a as u8, b as u8)); } }
    ck.explore("alpha-pairs", "every pair of alpha values in one block: both stored exactly", al, |&(a, b), o| {
        let mut img = RgbaImage::from_pixel(4, 4, image::Rgba([90, 90, 90, a]));
        for (i, p) in img.pixels_mut().enumerate() { if i % 3 == 1 { p.0[3] = b; } }
        check_written(&img, 6, 0, o)
    });
    ck.explore("pixel-positions", "one differing pixel at every position of every image up to 9x9: it stays where it was", (1..=9u32).flat_map(|w| (1..=9u32).flat_map(move |h| (0..w).flat_map(move |x| (0..h).map(move |y| (w, h, x, y))))), |&(w, h, x, y), o| {
        let mut img = RgbaImage::from_pixel(w, h, image::Rgba([0, 0, 0, 255]));
        img.put_pixel(x, y, image::Rgba([255, 255, 255, 255]));
        check_written(&img, 16, 0, o)
    });
    ck.explore("impossible-sizes", "every size on either side of what the format can hold: refused, with nothing half-written claimed as success", [(0u32, 0u32, false), (0, 1, false), (1, 0, false), (32767, 1, true), (32768, 1, false), (32769, 1, false), (65535, 1, false), (65536, 1, false), (65537, 1, false), (1, 32768, true), (1, 65535, true), (1, 65536, false), (1, 65540, false), (4096, 4096, false), (8192, 2048, false)], |&(w, h, ok), o| {
        let img = RgbaImage::from_pixel(w, h, image::Rgba([255, 255, 255, 255]));
        if ok { return check_written(&img, 0, 0, o); }
        let mut b = vec![];
        let r = Paa::write(&img, &mut b);
        ensure!(r.is_err(), "an image of {w}x{h} can not be stored but was written");
        o.state((w, h));
        Ok(())
    });
}

/// Minimal LZO stream: literals only (independent of the compressor under test).
fn lzo_literal(d: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let n = d.len();
    if n <= 238 { v.push(17 + n as u8); }
    else { v.push(0); let mut l = n - 18; while l > 255 { v.push(0); l -= 255; } v.push(l as u8); }
    v.extend_from_slice(d);
    v.extend([0x11, 0, 0]);
    v
}
fn magic(kind: u8) -> [u8; 2] { [kind, 0xff] }

#[derive(Clone, Debug)]
pub struct Mip { pub w: usize, pub h: usize, pub lzo: u8, pub salt: u32 }

pub fn block_data(kind: u8, m: &Mip) -> Vec<u8> { fill(data_len(kind, m.w, m.h), m.salt) }
pub fn file(kind: u8, taggs: &[(&str, Vec<u8>)], mips: &[Mip], holes: &[usize], gap: usize) -> Vec<u8> {
    let mut b = magic(kind).to_vec();
    for (n, d) in taggs {
        b.extend(b"GGAT"); b.extend(n.as_bytes()); b.extend((d.len() as u32).to_le_bytes()); b.extend(d);
    }
    b.extend(b"GGATSFFO"); b.extend(64u32.to_le_bytes());
    let tab = b.len();
    b.extend([0u8; 64]);
    b.extend([0, 0]); // palette
    b.extend(vec![0u8; gap]);
    let mut slot = 0;
    for m in mips {
        while holes.contains(&slot) { slot += 1; }
        let off = b.len() as u32;
        b[tab + slot * 4..tab + slot * 4 + 4].copy_from_slice(&off.to_le_bytes());
        slot += 1;
        let d = block_data(kind, m);
        let d = match m.lzo { 0 => d, 1 => lzo_literal(&d), _ => { let mut v = Vec::with_capacity(hemtt_lzo::worst_compress(d.len())); hemtt_lzo::compress(&d, &mut v).expect("lzo"); v } };
        b.extend((m.w as u16 | if m.lzo > 0 { 0x8000 } else { 0 }).to_le_bytes());
        b.extend((m.h as u16).to_le_bytes());
        b.extend(&(d.len() as u32).to_le_bytes()[..3]);
        b.extend(d);
    }
    b.extend([0u8; 6]);
    b
}
fn expect(b: &[u8], kind: u8, taggs: &[(&str, Vec<u8>)], mips: &[Mip], chunk: usize, o: &mut Obs) -> R {
    let r = if chunk == 0 { Paa::read(Cursor::new(b)) } else { Paa::read(super::pbo::Chunky::new(b.to_vec(), chunk)) };
    let r = r.map_err(|e| format!("refused: {e}"))?;
    ensure_eq!(r.format().as_bytes(), magic(kind), "format");
    ensure_eq!(r.taggs().len(), taggs.len() + 1, "tagg count");
    for (n, d) in taggs { ensure!(r.taggs().get(*n) == Some(d), "tagg {n}"); }
    ensure_eq!(r.maps().len(), mips.len(), "mipmap count");
    for (m, g) in mips.iter().zip(r.maps()) {
        ensure_eq!((g.width() as usize, g.height() as usize, g.is_compressed()), (m.w, m.h, m.lzo > 0), "mipmap header");
        let im = g.get_image();
        ensure_eq!((im.width() as usize, im.height() as usize), (m.w, m.h), "image size");
        ensure!(im.to_rgba8().as_raw() == &ref_image(kind, m.w, m.h, &block_data(kind, m)), "pixels of the {}x{} mipmap (compression {})", m.w, m.h, m.lzo);
        o.steps((m.w * m.h) as u64);
    }
    o.state((kind, b.len(), mips.len(), taggs.len()));
    Ok(())
}

pub fn sample() -> Vec<u8> { file(5, &[("CGVA", vec![1, 2, 3, 4]), ("GALF", vec![1, 0, 0, 0])], &[Mip { w: 16, h: 8, lzo: 1, salt: 3 }, Mip { w: 8, h: 4, lzo: 0, salt: 4 }], &[1], 3) }
pub fn read_check(ck: &Ck) {
    ck.assume("mipmap data that is too short or not decodable may panic when its pixels are requested, as documented; reading the file must not");
    let mm = ck.t(9usize, 17);
    let mut cs = vec![];
    for kind in [1u8, 3, 5] { for w in (1..=mm).chain([31, 32, 33, 256]) { for h in (1..=mm).chain([31, 32, 33]) { cs.push((kind, w, h)); } } }
    ck.explore("mipmap-sizes", "every block format x mipmap size x storage (plain, literal LZO, LZO), pixel for pixel against the reference decoder", cs, |&(kind, w, h), o| {
        for lzo in 0..3u8 { let m = [Mip { w, h, lzo, salt: (w * 64 + h) as u32 }]; expect(&file(kind, &[], &m, &[], 0), kind, &[], &m, 0, o)?; }
        Ok(())
    });
    ck.explore("blocks", "every endpoint pair of a colour alphabet x index pattern x alpha block, as 4x4 images in every format", {
        let c: Vec<u16> = ck.t(vec![0, 1, 31, 32, 0x7e0, 0x800, 0xf800, 0xffff, 0x8410, 0x1234], (0..=0xffffu32).step_by(1999).map(|x| x as u16).chain([0, 1, 0xffff]).collect());
        let mut v = vec![];
        for &a in &c { for &b in &c { for i in 0..4u8 { v.push((a, b, i)); } } }
        v
    }, |&(a, b, i), o| {
        for (a0, a1) in [(0u8, 0u8), (0, 255), (255, 0), (100, 101), (101, 100), (7, 249), (249, 7), (255, 255)] {
            for pat in [0x0000_0000_0000u64, 0xfac6_88fa_c688, 0x0538_9705_3897, 0xffff_ffff_ffff] {
                let mut c = vec![];
                c.extend(a.to_le_bytes()); c.extend(b.to_le_bytes());
                c.extend([0xe4 ^ (i * 0x55), 0x1b, i * 0x55, 0xb1]);
                let mut al = vec![a0, a1]; al.extend(&pat.to_le_bytes()[..6]);
                for kind in [1u8, 3, 5] {
                    let d = if kind == 1 { c.clone() } else { [al.clone(), c.clone()].concat() };
                    let mut f = magic(kind).to_vec();
                    f.extend(b"GGATSFFO"); f.extend(4u32.to_le_bytes()); f.extend(20u32.to_le_bytes()); f.extend([0, 0]);
                    f.extend([4, 0, 4, 0, d.len() as u8, 0, 0]); f.extend(&d); f.extend([0; 4]);
                    let r = Paa::read(Cursor::new(&f)).map_err(|e| e.to_string())?;
                    ensure!(r.maps()[0].get_image().to_rgba8().as_raw() == &ref_image(kind, 4, 4, &d), "format {kind} block {d:02x?}");
                    o.state(&d); o.steps(1);
                }
            }
        }
        Ok(())
    });
    let all: Vec<(&str, Vec<u8>)> = vec![("CGVA", vec![1, 2, 3, 4]), ("AVGC", vec![255; 4]), ("CXAM", vec![0; 4]), ("GALF", vec![1, 0, 0, 0]), ("ZIWS", vec![]), ("CORP", fill(300, 3)), ("GGAT", b"GGATGGAT".to_vec())];
    let mut cs = vec![];
    for s in subsets(&(0..all.len()).collect::<Vec<_>>(), 0, ck.t(3, 4)) { for p in permutations(&s) { for n in 0..=2usize { cs.push((p.clone(), n)); } } }
    ck.explore("taggs", "every ordered set of up to k taggs x 0 to 2 mipmaps", cs, |(p, n), o| {
        let t: Vec<(&str, Vec<u8>)> = p.iter().map(|&i| all[i].clone()).collect();
        let m: Vec<Mip> = (0..*n).map(|i| Mip { w: 8 >> i, h: 4 >> i, lzo: i as u8, salt: i as u32 }).collect();
        expect(&file(5, &t, &m, &[], 0), 5, &t, &m, 0, o)
    });
    let mut cs = vec![];
    for n in 0..=ck.t(4usize, 6) { for holes in subsets(&[0usize, 1, 2, 3, 5, 9], 0, 6) { for gap in [0usize, 1, 100] { for chunk in [0usize, 1, 3, 7] { cs.push((n, holes.clone(), gap, chunk)); } } } }
    ck.explore("offset-table", "every number of mipmaps x set of unused table slots x gap before the data x read chunking", cs, |(n, holes, gap, chunk), o| {
        let m: Vec<Mip> = (0..*n).map(|i| Mip { w: (32 >> i).max(1), h: (16 >> i).max(1), lzo: (i % 3) as u8, salt: i as u32 }).collect();
        expect(&file(1, &all[..1], &m, holes, *gap), 1, &all[..1], &m, *chunk, o)
    });
    ck.explore("format-ids", "all 65536 type values: the nine known ones map to themselves and back, with and without mipmaps no value crashes the reader", 0..=255u8, |&a, o| {
        for b in 0..=255u8 {
            let t = PaXType::from_bytes([a, b]);
            let want = match (a, b) { (1, 255) => Some("DXT1"), (2, 255) => Some("DXT2"), (3, 255) => Some("DXT3"), (4, 255) => Some("DXT4"), (5, 255) => Some("DXT5"), (0x44, 0x44) => Some("RGBA4"), (0x15, 0x55) => Some("RGBA5"), (0x88, 0x88) => Some("RGBA8"), (0x80, 0x80) => Some("GRAYA"), _ => None };
            ensure_eq!(t.as_ref().map(ToString::to_string), want.map(str::to_string), "type {a:02x}{b:02x}");
            if let Some(t) = &t { ensure_eq!(t.as_bytes(), [a, b], "bytes of {t}"); }
            let mut f = file(5, &[], &[Mip { w: 4, h: 4, lzo: 0, salt: 1 }], &[], 0);
            f[0] = a; f[1] = b;
            let r = Paa::read(Cursor::new(&f));
            ensure!(t.is_some() || r.is_err(), "unknown type {a:02x}{b:02x} accepted");
            if let Some("DXT3" | "DXT5") = want { ensure!(r.is_ok(), "{want:?} refused"); }
            let g = [&[a, b][..], b"GGATFLAG\0\0\0\0", &[0; 4]].concat();
            ensure_eq!(Paa::read(Cursor::new(&g)).is_ok(), t.is_some(), "file without mipmaps, type {a:02x}{b:02x}");
            o.steps(1);
            o.state((want, r.is_ok()));
        }
        Ok(())
    });
    let f = file(5, &all[..2], &[Mip { w: 8, h: 4, lzo: 0, salt: 4 }, Mip { w: 4, h: 4, lzo: 1, salt: 5 }], &[], 0);
    let body = f.len() - 6;
    ck.explore("truncation", "every proper prefix of a file is refused", 0..body, |&n, o| {
        let r = Paa::read(Cursor::new(&f[..n]));
        ensure!(r.is_err(), "accepted the first {n} of {body} bytes");
        o.state(n); o.steps(1);
        Ok(())
    });
    let masks: Vec<u8> = ck.t(vec![1, 2, 4, 8, 16, 32, 64, 128, 255], (1..=255).collect());
    ck.explore("corruption", "every byte of a file xor every mask, and every 4-byte field set to extreme values: a value or an error, no crash and no runaway allocation", 0..f.len(), |&i, o| {
        for &x in &masks {
            let mut g = f.clone(); g[i] ^= x;
            let r = Paa::read(Cursor::new(&g));
            o.steps(1); o.state(r.map(|r| (r.maps().len(), r.taggs().len())).map_err(|e| e.kind()));
        }
        if i + 4 <= f.len() {
            for v in [u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x4000_0001, f.len() as u32, f.len() as u32 - 1] {
                let mut g = f.clone(); g[i..i + 4].copy_from_slice(&v.to_le_bytes());
                let _ = Paa::read(Cursor::new(&g));
                o.steps(1);
            }
        }
        Ok(())
    });
}
