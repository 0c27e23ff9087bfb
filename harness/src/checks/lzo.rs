//! B01: LZO compression round trip and bounds. B02: the decoder is memory safe and agrees with
//! an independent decoder of the stream format.
use crate::fw::*;
use crate::{ensure, ensure_eq};
use std::cell::RefCell;

/// A memory region with inaccessible pages on both sides.
pub struct Guarded {
    base: *mut u8,
    cap: usize,
}
const PG: usize = 4096;
impl Guarded {
    pub fn new(cap: usize) -> Self {
        let cap = cap.div_ceil(PG) * PG;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                cap + 2 * PG,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base = p.cast::<u8>().add(PG);
            assert_eq!(libc::mprotect(base.cast(), cap, libc::PROT_READ | libc::PROT_WRITE), 0);
            Self { base, cap }
        }
    }
    /// n bytes directly before the rear guard page
    pub fn tail(&mut self, n: usize) -> &mut [u8] {
        assert!(n <= self.cap);
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.cap - n), n) }
    }
    /// n bytes directly after the front guard page
    pub fn head(&mut self, n: usize) -> &mut [u8] {
        assert!(n <= self.cap);
        unsafe { std::slice::from_raw_parts_mut(self.base, n) }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.sub(PG).cast(), self.cap + 2 * PG);
        }
    }
}
struct Bufs {
    i: Guarded,
    o: Guarded,
}
const MAXB: usize = 1 << 20;
thread_local! {
    static B: RefCell<Option<Bufs>> = const { RefCell::new(None) };
}
fn with<T>(f: impl FnOnce(&mut Bufs) -> T) -> T {
    B.with(|b| {
        let mut g = b.borrow_mut();
        let b = g.get_or_insert_with(|| Bufs {
            i: Guarded::new(MAXB),
            o: Guarded::new(MAXB),
        });
        f(b)
    })
}

/// Decoder written from the description of the LZO1X stream (kernel Documentation/lzo.txt),
/// not from the implementation. None = the stream is not valid for this output capacity.
pub fn ref_decode(s: &[u8], cap: usize, steps: &mut u64) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let mut p = 0usize;
    let byte = |p: &mut usize| -> Option<usize> {
        let b = *s.get(*p)?;
        *p += 1;
        Some(b as usize)
    };
    fn lits(s: &[u8], p: &mut usize, n: usize, out: &mut Vec<u8>, cap: usize) -> Option<()> {
        if s.len() - *p < n || cap - out.len() < n {
            return None;
        }
        out.extend_from_slice(&s[*p..*p + n]);
        *p += n;
        Some(())
    }
    fn copy(dist: usize, len: usize, out: &mut Vec<u8>, cap: usize) -> Option<()> {
        if dist > out.len() || cap - out.len() < len {
            return None;
        }
        for _ in 0..len {
            let b = out[out.len() - dist];
            out.push(b);
        }
        Some(())
    }
    let ext = |p: &mut usize, base: usize| -> Option<usize> {
        let mut l = base;
        loop {
            let b = *s.get(*p)? as usize;
            *p += 1;
            if b != 0 {
                return Some(l + b);
            }
            l += 255;
        }
    };
    // state: literals copied by the previous instruction (0..=3), 4 = 4 or more
    let mut state = 0usize;
    if let Some(&b) = s.first() {
        if b >= 18 {
            p = 1;
            let n = b as usize - 17;
            lits(s, &mut p, n, &mut out, cap)?;
            state = n.min(4);
        }
    }
    loop {
        *steps += 1;
        let b = byte(&mut p)?;
        let (dist, len, next);
        match b {
            0..=15 if state == 0 => {
                let n = if b == 0 { ext(&mut p, 15)? + 3 } else { b + 3 };
                lits(s, &mut p, n, &mut out, cap)?;
                state = 4;
                continue;
            }
            0..=15 if state < 4 => {
                let h = byte(&mut p)?;
                dist = (h << 2) + (b >> 2) + 1;
                len = 2;
                next = b & 3;
            }
            0..=15 => {
                let h = byte(&mut p)?;
                dist = (h << 2) + (b >> 2) + 2049;
                len = 3;
                next = b & 3;
            }
            16..=31 => {
                len = if b & 7 == 0 { ext(&mut p, 7)? + 2 } else { (b & 7) + 2 };
                let lo = byte(&mut p)?;
                let hi = byte(&mut p)?;
                let d = ((b & 8) << 11) + (hi << 6) + (lo >> 2);
                if d == 0 {
                    // end of stream
                    return if len == 3 && p == s.len() { Some(out) } else { None };
                }
                dist = 16384 + d;
                next = lo & 3;
            }
            32..=63 => {
                len = if b & 31 == 0 { ext(&mut p, 31)? + 2 } else { (b & 31) + 2 };
                let lo = byte(&mut p)?;
                let hi = byte(&mut p)?;
                dist = (hi << 6) + (lo >> 2) + 1;
                next = lo & 3;
            }
            _ => {
                let h = byte(&mut p)?;
                len = (b >> 5) + 1;
                dist = (h << 3) + ((b >> 2) & 7) + 1;
                next = b & 3;
            }
        }
        copy(dist, len, &mut out, cap)?;
        lits(s, &mut p, next, &mut out, cap)?;
        state = next;
    }
}

fn impl_decode(s: &[u8], cap: usize, head: bool, res: impl FnOnce(Result<&[u8], String>) -> R) -> R {
    with(|b| {
        let i = if head { b.i.head(s.len()) } else { b.i.tail(s.len()) };
        i.copy_from_slice(s);
        let i: &[u8] = unsafe { std::slice::from_raw_parts(i.as_ptr(), i.len()) };
        let o = if head { b.o.head(cap) } else { b.o.tail(cap) };
        o.fill(0xA5);
        match hemtt_lzo::decompress_to_slice(i, o) {
            Ok(x) => res(Ok(x)),
            Err(e) => res(Err(format!("{e}"))),
        }
    })
}

fn agree(s: &[u8], cap: usize, o: &mut Obs) -> R {
    let mut st = 0;
    let want = ref_decode(s, cap, &mut st);
    o.steps(st);
    for head in [false, true] {
        impl_decode(s, cap, head, |got| match (&want, got) {
            (None, Err(_)) => Ok(()),
            (Some(w), Ok(g)) => {
                if w == g {
                    Ok(())
                } else {
                    Err(format!("decoded {} bytes instead of {} or different bytes for stream {}", g.len(), w.len(), clip(&format!("{s:02x?}"), 200)))
                }
            }
            (Some(w), Err(e)) => Err(format!("refused ({e}) a valid stream of {} bytes: {}", w.len(), clip(&format!("{s:02x?}"), 200))),
            (None, Ok(g)) => Err(format!("accepted an invalid stream as {} bytes (capacity {cap}): {}", g.len(), clip(&format!("{s:02x?}"), 200))),
        })?;
    }
    o.state(want.map(|w| (w.len(), w.iter().take(16).copied().collect::<Vec<_>>(), w.iter().map(|&b| b as u64).sum::<u64>())));
    Ok(())
}

fn roundtrip(data: &[u8], o: &mut Obs) -> R {
    let worst = hemtt_lzo::worst_compress(data.len());
    ensure!(worst >= data.len() + data.len() / 16 + 64 + 3, "worst_compress({}) = {worst}", data.len());
    let mut first: Option<Vec<u8>> = None;
    for head in [false, true] {
        let packed = with(|b| -> Result<Vec<u8>, String> {
            let i = if head { b.i.head(data.len()) } else { b.i.tail(data.len()) };
            i.copy_from_slice(data);
            let i: &[u8] = unsafe { std::slice::from_raw_parts(i.as_ptr(), i.len()) };
            let out = if head { b.o.head(worst) } else { b.o.tail(worst) };
            out.fill(0x5A);
            let r = hemtt_lzo::compress_to_slice(i, out).map_err(|e| format!("compression refused: {e}"))?;
            Ok(r.to_vec())
        })?;
        ensure!(packed.len() <= worst, "{} bytes compressed to {} > worst case {worst}", data.len(), packed.len());
        let mut st = 0;
        let back = ref_decode(&packed, data.len(), &mut st);
        o.steps(st);
        ensure!(back.as_deref() == Some(data), "the independent decoder does not give the input back ({} -> {} bytes)", data.len(), packed.len());
        for h2 in [false, true] {
            impl_decode(&packed, data.len(), h2, |g| match g {
                Ok(g) if g == data => Ok(()),
                Ok(g) => Err(format!("decompressed to {} bytes, different from the {} byte input", g.len(), data.len())),
                Err(e) => Err(format!("own output is refused: {e}")),
            })?;
        }
        if let Some(f) = &first {
            ensure_eq!(packed.len(), f.len(), "compression depends on where the buffers are");
        }
        first = Some(packed);
    }
    let packed = first.unwrap_or_default();
    // the Vec interface agrees
    let mut v: Vec<u8> = Vec::with_capacity(worst);
    hemtt_lzo::compress(data, &mut v).map_err(|e| format!("compress into a Vec refused: {e}"))?;
    ensure!(v == packed, "compress and compress_to_slice disagree");
    o.state((packed.len(), &packed));
    Ok(())
}

pub fn compress_check(ck: &Ck) {
    ck.assume("x86-64; inputs up to 200 kB");
    // all strings over small alphabets: as they are, and around a compressible / incompressible frame
    let n2 = ck.t(16usize, 20);
    ck.explore("binary-strings", "every string over two letters up to the bound, bare, repeated to over 64 bytes, and embedded between two copies of an incompressible run",
        seqs(&[0u8, 1], 0, n2), |s, o| {
        roundtrip(s, o)?;
        if !s.is_empty() {
            let mut r: Vec<u8> = vec![];
            while r.len() < 64 { r.extend_from_slice(s); }
            roundtrip(&r, o)?;
            let f = fill(24, 7);
            let e = [&f[..], s, &f[..], s, &f[..]].concat();
            roundtrip(&e, o)?;
        }
        Ok(())
    });
    let n3 = ck.t(8usize, 10);
    ck.explore("block-strings", "every sequence over 4 blocks (incompressible 5 bytes, zero run of 9, copy of a 12-byte word, copy of a 40-byte word) up to the bound",
        seqs(&[0u8, 1, 2, 3], 1, n3), |s, o| {
        let w1 = fill(12, 99);
        let w2 = fill(40, 100);
        let mut d = vec![];
        for (i, b) in s.iter().enumerate() {
            match b {
                0 => d.extend(fill(5, 1000 + i as u32)),
                1 => d.extend([0u8; 9]),
                2 => d.extend_from_slice(&w1),
                _ => d.extend_from_slice(&w2),
            }
        }
        roundtrip(&d, o)
    });
    // literal run lengths x match lengths x trailing lengths
    let lits: Vec<usize> = (0..=ck.t(40, 64)).chain([237, 238, 239, 240, 253, 254, 255, 256, 270, 271, 272, 273, 274, 275, 508, 510, 511, 526, 527, 528, 529, 530]).collect();
    let mls: Vec<usize> = (3..=12).chain([31, 32, 33, 34, 35, 63, 64, 65, 263, 264, 265, 266, 287, 288, 289, 290, 542, 543, 544]).collect();
    let tails: Vec<usize> = (0..=ck.t(24, 40)).chain([237, 238, 239, 254, 255, 256, 272, 273, 274]).collect();
    let mut cs = vec![];
    for &l in &lits { for &m in &mls { cs.push((l, m)); } }
    ck.explore("literal-match-tail", "every (literal run length, match length) of the sweep x every tail length: a run of distinct bytes, a repetition of the last bytes, then distinct bytes", cs, |&(l, m), o| {
        for &t in &tails {
            let mut d = fill(l + 4, 3);
            let from = d.len() - 4;
            for i in 0..m { let b = d[from + i]; d.push(b); }
            d.extend(fill(t, 4));
            roundtrip(&d, o)?;
        }
        Ok(())
    });
    // distance boundaries
    let ds: Vec<usize> = [1usize, 2, 3, 4, 7, 8, 9, 16, 0x7fd, 0x7fe, 0x7ff, 0x800, 0x801, 0x802, 0xbff, 0xc00, 0xc01, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x4002, 0x7fff, 0x8000, 0x8001, 0xbffd, 0xbffe, 0xbfff, 0xc000, 0xc001].to_vec();
    let mut cs = vec![];
    for &d in &ds { for &l in &[4usize, 5, 8, 9, 10, 32, 33, 34, 35, 264, 265] { for noise in [false, true] { cs.push((d, l, noise)); } } }
    ck.explore("distances", "every (distance, match length) of the boundary sweep, filler compressible or not, for start offsets 0..8", cs, |&(dist, l, noise), o| {
        for off in 0..ck.t(4usize, 9) {
            let word = fill(l, 55);
            let mut d = fill(off, 5);
            let gap = dist.saturating_sub(l);
            d.extend_from_slice(&word);
            if noise { d.extend(fill(gap, 6)); } else { d.extend(vec![0u8; gap]); }
            if dist < l {
                // overlapping repetition with period dist
                let p = fill(dist, 8);
                for i in 0..l + 16 { d.push(p[i % dist]); }
            }
            d.extend_from_slice(&word);
            d.extend(fill(25, 9));
            roundtrip(&d, o)?;
        }
        Ok(())
    });
    // block boundary of the compressor and long inputs
    let mut cs = vec![];
    for base in [0usize, 0xc000, 0x18000] {
        for delta in -24i64..=24 {
            for kind in 0..5u8 {
                let n = base as i64 + delta;
                if n >= 0 { cs.push((n as usize, kind)); }
            }
        }
    }
    cs.extend((0..5).map(|k| (150_000usize, k)));
    ck.explore("lengths", "every input length around multiples of the compressor's block size x content kind (zeros, incompressible, period 3, period 1000, mixed)", cs, |&(n, kind), o| {
        let d: Vec<u8> = match kind {
            0 => vec![0; n],
            1 => fill(n, 77),
            2 => (0..n).map(|i| (i % 3) as u8).collect(),
            3 => { let w = fill(1000, 12); (0..n).map(|i| w[i % 1000]).collect() }
            _ => { let w = fill(n, 13); (0..n).map(|i| if (i / 37) % 3 == 0 { w[i] } else { (i / 37) as u8 }).collect() }
        };
        roundtrip(&d, o)
    });
    // boundary crossing: content around the block boundary
    let mut cs = vec![];
    for back in 0..=ck.t(40usize, 80) { for m in [0usize, 4, 5, 9, 20, 60] { for t in [0usize, 1, 3, 4, 17, 18, 19, 20, 21, 22, 40] { cs.push((back, m, t)); } } }
    ck.explore("block-boundary", "every (offset of the last match before the block boundary, its length, bytes after the boundary)", cs, |&(back, m, t), o| {
        let n = 0xc000usize;
        let word = fill(m, 21);
        let mut d = word.clone();
        let w = fill(64, 22);
        while d.len() < n - back { let i = d.len(); d.push(w[i % 64]); }
        d.extend_from_slice(&word);
        let k = fill(back + t, 23);
        d.extend_from_slice(&k);
        d.truncate(n + t);
        roundtrip(&d, o)
    });
    // buffers that are too small are refused and nothing outside them is touched
    let mut cs = vec![];
    for n in [0usize, 1, 3, 4, 15, 16, 20, 21, 100, 1000, 49152, 49153] { for short in 1..=ck.t(80usize, 140) { cs.push((n, short)); } }
    ck.explore("small-output", "every input length x every capacity from one to n below the documented worst case: an error or a correct result, never a write outside the buffer", cs, |&(n, short), o| {
        let data = fill(n, 31);
        let worst = hemtt_lzo::worst_compress(n);
        let Some(cap) = worst.checked_sub(short) else { return Ok(()); };
        let r = with(|b| -> Result<Option<Vec<u8>>, String> {
            let out = b.o.tail(cap);
            match hemtt_lzo::compress_to_slice(&data, out) { Ok(x) => Ok(Some(x.to_vec())), Err(_) => Ok(None) }
        })?;
        if let Some(p) = &r {
            let mut st = 0;
            ensure!(p.len() <= cap && ref_decode(p, n, &mut st).as_deref() == Some(&data[..]), "claims success with a wrong result in {cap} bytes");
        }
        let mut v = Vec::with_capacity(cap);
        if v.capacity() == cap {
            if hemtt_lzo::compress(&data, &mut v).is_ok() { ensure!(v.len() <= cap, "grew past its capacity"); }
        }
        o.state((n, r.is_some()));
        o.steps(1);
        Ok(())
    });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum I {
    Lit(usize),
    M1(usize, usize),
    M2(usize, usize, usize),
    M3(usize, usize, usize),
    M4(usize, usize, usize),
}
/// encode an instruction; `state` is what the previous one left (0..=3 literals, 4 = long run)
fn enc(i: I, v: &mut Vec<u8>, state: &mut usize, salt: &mut u32) {
    fn ext(v: &mut Vec<u8>, mut l: usize) {
        while l > 255 { v.push(0); l -= 255; }
        v.push(l as u8);
    }
    let mut lits = |v: &mut Vec<u8>, n: usize, salt: &mut u32| {
        v.extend(fill(n, *salt).iter().map(|b| b | 1));
        *salt += 1;
    };
    match i {
        I::Lit(n) => {
            // only legal in state 0; in other states these bytes mean a short match, which the
            // reference decoder judges too
            if n <= 18 { v.push((n - 3) as u8); } else { v.push(0); ext(v, n - 18); }
            lits(v, n, salt);
            *state = 4;
        }
        I::M1(d, nx) => {
            let d = d - 1;
            v.push((((d & 3) << 2) | nx) as u8);
            v.push((d >> 2) as u8);
            lits(v, nx, salt);
            *state = nx;
        }
        I::M2(len, d, nx) => {
            let d = d - 1;
            v.push((((len - 1) << 5) | ((d & 7) << 2) | nx) as u8);
            v.push((d >> 3) as u8);
            lits(v, nx, salt);
            *state = nx;
        }
        I::M3(len, d, nx) => {
            let d = d - 1;
            if len <= 33 { v.push((32 | (len - 2)) as u8); } else { v.push(32); ext(v, len - 33); }
            v.push((((d & 63) << 2) | nx) as u8);
            v.push((d >> 6) as u8);
            lits(v, nx, salt);
            *state = nx;
        }
        I::M4(len, d, nx) => {
            let d = d - 16384;
            let h = if d & 0x4000 != 0 { 8 } else { 0 };
            let d = d & 0x3fff;
            if len <= 9 { v.push((16 | h | (len - 2)) as u8); } else { v.push((16 | h) as u8); ext(v, len - 9); }
            v.push((((d & 63) << 2) | nx) as u8);
            v.push((d >> 6) as u8);
            lits(v, nx, salt);
            *state = nx;
        }
    }
}

pub fn decode_check(ck: &Ck) {
    ck.assume("x86-64");
    const CAPS: [usize; 6] = [0, 1, 2, 3, 7, 4096];
    ck.explore("all-bytes", "every byte string of up to 3 bytes (capacity 300), grouped by the first two", (0..=255u8).flat_map(|a| (0..=255u8).map(move |b| (a, b))), |&(a, b), o| {
        if b == 0 { agree(&[a], 300, o)?; agree(&[], 300, o)?; }
        agree(&[a, b], 300, o)?;
        for c in 0..=255u8 { agree(&[a, b, c], 300, o)?; }
        Ok(())
    });
    const AL: [u8; 16] = [0, 1, 2, 3, 4, 0x0f, 0x10, 0x11, 0x12, 0x15, 0x18, 0x20, 0x21, 0x40, 0x44, 0xff];
    let depth = ck.t(6usize, 7);
    ck.explore("structured-bytes", "every string over 16 significant byte values up to the bound, bare and followed by the end marker, for 6 output capacities", seqs(&AL, 1, depth - 1), |s, o| {
        let mut t = s.clone();
        for last in AL {
            t.push(last);
            for cap in CAPS { agree(&t, cap, o)?; }
            t.extend([0x11, 0, 0]);
            for cap in CAPS { agree(&t, cap, o)?; }
            t.truncate(s.len());
        }
        Ok(())
    });
    // instruction sequences
    let mut al = vec![I::Lit(4), I::Lit(18), I::Lit(19), I::M1(1, 0), I::M1(4, 1), I::M1(1024, 2), I::M2(3, 1, 0), I::M2(8, 2, 3), I::M2(5, 2048, 1), I::M3(3, 1, 0), I::M3(33, 5, 2), I::M3(34, 3, 0), I::M3(40, 2049, 3), I::M3(289, 1, 1), I::M3(3, 16384, 0), I::M4(3, 16385, 0), I::M4(9, 16386, 3), I::M4(10, 32767, 1), I::M4(265, 32768, 0), I::M4(3, 49151, 2)];
    if !ck.quick() { al.extend([I::Lit(3), I::Lit(273), I::Lit(274), I::M1(2, 3), I::M2(4, 8, 2), I::M3(288, 64, 0), I::M4(264, 49150, 0)]); }
    let prefixes: Vec<Vec<u8>> = {
        let run = |n: usize| { let mut v = vec![]; let (mut st, mut sa) = (0, 1); enc(I::Lit(n), &mut v, &mut st, &mut sa); v };
        let mut p = vec![vec![], vec![18, 9], vec![20, 9, 8, 7], vec![21, 9, 8, 7, 6], run(4), run(2050), run(3073), run(16386), run(49152)];
        p.push({ let mut v = vec![255u8]; v.extend(fill(238, 2)); v });
        p
    };
    let depth = ck.t(3usize, 4);
    let mut cs: Vec<(usize, Vec<I>)> = vec![];
    for p in 0..prefixes.len() { for s in seqs(&al, 0, depth) { cs.push((p, s)); } }
    ck.explore("instructions", "every sequence of instructions (literal runs and all four match kinds at boundary lengths and distances) up to the bound after each of 10 openings x capacities exact, one less, one more; streams complete, without end marker, with trailing byte, and truncated everywhere in the last 24 bytes", cs, |(p, s), o| {
        let mut v = prefixes[*p].clone();
        let (mut st, mut salt) = (0usize, 11u32);
        for i in s { enc(*i, &mut v, &mut st, &mut salt); }
        let mut full = v.clone();
        full.extend([0x11, 0, 0]);
        let mut x = 0;
        let n = ref_decode(&full, MAXB, &mut x).map_or(400, |w| w.len());
        for cap in [n, n.saturating_sub(1), n + 1, 0] { agree(&full, cap.min(MAXB), o)?; }
        let mut tr = full.clone();
        tr.push(0);
        agree(&tr, n, o)?;
        if s.len() < 2 || *p < 5 {
            for cut in 1..=24.min(full.len()) { agree(&full[..full.len() - cut], n, o)?; }
        }
        // every other end marker
        for e in [[0x11u8, 1, 0], [0x11, 4, 0], [0x12, 0, 0], [0x19, 0, 0], [0x10, 0, 0], [0x11, 0, 1]] {
            let mut t = v.clone();
            t.extend(e);
            agree(&t, n + 64, o)?;
        }
        Ok(())
    });
    // corrupted compressor output
    let samples: Vec<Vec<u8>> = [vec![0u8; 300], fill(100, 3), (0..600).map(|i| (i % 7) as u8).collect::<Vec<_>>(), { let w = fill(40, 4); [&w[..], &[0; 50], &w[..], &fill(300, 5)[..], &w[..]].concat() }]
        .iter().map(|d| { let mut v = Vec::with_capacity(hemtt_lzo::worst_compress(d.len())); hemtt_lzo::compress(d, &mut v).expect("compress"); v }).collect();
    let mut cs = vec![];
    for (k, s) in samples.iter().enumerate() { for i in 0..s.len() { cs.push((k, i)); } }
    ck.explore("corrupted", "every byte of four compressed samples xor every value, and every truncation", cs, |&(k, i), o| {
        for x in 0..=255u8 {
            let mut s = samples[k].clone();
            s[i] ^= x;
            agree(&s, 700, o)?;
        }
        agree(&samples[k][..i], 700, o)
    });
    ck.explore("long-lengths", "length extensions of every size up to the bound, complete or cut, for literal runs and the two long match kinds", (0..ck.t(300usize, 3000)).collect::<Vec<_>>(), |&z, o| {
        for op in [0u8, 0x20, 0x10, 0x18] {
            for last in [1u8, 255] {
                let mut s = vec![21u8, 1, 2, 3, 4];
                if op == 0 { s = vec![]; }
                s.push(op);
                s.extend(vec![0u8; z]);
                agree(&s, 4096, o)?;
                s.push(last);
                agree(&s, 4096, o)?;
                s.extend([0, 0, 0x11, 0, 0]);
                agree(&s, 4096, o)?;
                agree(&s, 1 << 20, o)?;
            }
        }
        Ok(())
    });
}
