//! Pixel formats written from their descriptions: PNG and BMP, both ways.

use crate::ensure;
use crate::tape::Tape;

/// RGBA rows from the top, 16 bits a channel.
#[derive(Clone, PartialEq, Debug)]
pub struct Pix {
    pub w: usize,
    pub h: usize,
    pub px: Vec<[u16; 4]>,
}
impl Pix {
    /// 8 bits a channel, the nearest value
    pub fn to8(&self) -> Vec<[u8; 4]> {
        self.px.iter().map(|p| p.map(|c| ((c as u32 * 255 + 32767) / 65535) as u8)).collect()
    }
    pub fn transparent(&self) -> bool {
        self.px.iter().any(|p| p[3] != 65535)
    }
}

fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in d {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xedb88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}
fn chunk(out: &mut Vec<u8>, kind: &[u8; 4], d: &[u8]) {
    out.extend((d.len() as u32).to_be_bytes());
    let mut k = kind.to_vec();
    k.extend(d);
    out.extend(&k);
    out.extend(crc(&k).to_be_bytes());
}

/// Any of the PNG colour types with random contents and filters.
pub fn gen_png(t: &mut Tape, max: usize) -> (Pix, Vec<u8>, &'static str) {
    let (w, h) = (t.usize(1, max), t.usize(1, max));
    let opts: [(u8, usize); 15] = [(2, 8), (6, 8), (0, 8), (4, 8), (3, 8), (3, 4), (3, 2), (3, 1), (0, 1), (0, 2), (0, 4), (2, 16), (6, 16), (0, 16), (4, 16)];
    let (ct, bits) = *t.pick(&opts);
    let ch = match ct {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        _ => 4,
    };
    let top = if bits == 16 { 65535u32 } else { (1 << bits) - 1 };
    let mut plte = vec![];
    let mut trns = vec![];
    let mut pal = vec![];
    let mut key: Option<Vec<u16>> = None;
    if ct == 3 {
        let n = t.usize(1, (top + 1) as usize);
        plte = t.bytes(3 * n);
        if t.bool() {
            let k = t.usize(1, n);
            trns = t.bytes(k);
        }
        for i in 0..n {
            let a = trns.get(i).copied().unwrap_or(255);
            pal.push([plte[3 * i], plte[3 * i + 1], plte[3 * i + 2], a].map(|x| x as u16 * 257));
        }
    }
    let flat = t.chance(1, 3);
    let opaque = t.chance(1, 3);
    let sample = |t: &mut Tape| -> Vec<u16> {
        (0..ch)
            .map(|c| {
                let alpha = (ct == 4 && c == 1) || (ct == 6 && c == 3);
                if alpha && opaque {
                    top as u16
                } else if ct == 3 {
                    t.below(pal.len() as u64) as u16
                } else {
                    (t.any() as u32 & top) as u16
                }
            })
            .collect()
    };
    let first = sample(t);
    let samples: Vec<Vec<u16>> = (0..w * h).map(|_| if flat { first.clone() } else { sample(t) }).collect();
    if (ct == 0 || ct == 2) && t.chance(1, 3) {
        let k = samples[t.usize(0, w * h - 1)].clone();
        for x in &k {
            trns.extend(x.to_be_bytes());
        }
        key = Some(k);
    }
    let wide = |x: u16| (x as u32 * 65535 / top) as u16;
    let px = samples
        .iter()
        .map(|s| match ct {
            3 => pal[s[0] as usize],
            0 | 2 => {
                let a = if key.as_ref() == Some(s) { 0 } else { 65535 };
                let g = |i: usize| wide(s[i % ch]);
                [g(0), g(1 % ch), g(2 % ch), a]
            }
            4 => [wide(s[0]), wide(s[0]), wide(s[0]), wide(s[1])],
            _ => [wide(s[0]), wide(s[1]), wide(s[2]), wide(s[3])],
        })
        .collect();
    // raw rows
    let bpp = (ch * bits).div_ceil(8);
    let row = (w * ch * bits).div_ceil(8);
    let mut prev = vec![0u8; row];
    let mut raw = vec![];
    for y in 0..h {
        let mut cur = vec![0u8; row];
        for x in 0..w {
            for c in 0..ch {
                let v = samples[y * w + x][c];
                match bits {
                    16 => cur[(x * ch + c) * 2..][..2].copy_from_slice(&v.to_be_bytes()),
                    8 => cur[x * ch + c] = v as u8,
                    _ => {
                        let at = x * bits;
                        cur[at / 8] |= (v as u8) << (8 - bits - at % 8);
                    }
                }
            }
        }
        let f = t.below(5) as u8;
        raw.push(f);
        for i in 0..row {
            let a = if i >= bpp { cur[i - bpp] } else { 0 };
            let b = prev[i];
            let c = if i >= bpp { prev[i - bpp] } else { 0 };
            raw.push(cur[i].wrapping_sub(predict(f, a, b, c)));
        }
        prev = cur;
    }
    let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut ih = vec![];
    ih.extend((w as u32).to_be_bytes());
    ih.extend((h as u32).to_be_bytes());
    ih.extend([bits as u8, ct, 0, 0, 0]);
    chunk(&mut out, b"IHDR", &ih);
    if t.chance(1, 4) {
        chunk(&mut out, b"tEXt", b"Comment\0x");
    }
    if t.chance(1, 6) {
        chunk(&mut out, b"gAMA", &45455u32.to_be_bytes());
    }
    if !plte.is_empty() {
        chunk(&mut out, b"PLTE", &plte);
    }
    if !trns.is_empty() {
        chunk(&mut out, b"tRNS", &trns);
    }
    let z = crate::wire::zlib(&raw);
    let cut = t.usize(0, z.len());
    for part in [&z[..cut], &z[cut..]] {
        if !part.is_empty() {
            chunk(&mut out, b"IDAT", part);
        }
    }
    chunk(&mut out, b"IEND", &[]);
    let class = match (ct, bits) {
        (3, _) => "palette png",
        (_, 16) => "16 bit png",
        (0, _) | (4, _) => "grey png",
        _ => "8 bit colour png",
    };
    (Pix { w, h, px }, out, class)
}
fn predict(f: u8, a: u8, b: u8, c: u8) -> u8 {
    match f {
        0 => 0,
        1 => a,
        2 => b,
        3 => ((a as u16 + b as u16) / 2) as u8,
        _ => {
            let p = a as i32 + b as i32 - c as i32;
            let (pa, pb, pc) = ((p - a as i32).abs(), (p - b as i32).abs(), (p - c as i32).abs());
            if pa <= pb && pa <= pc {
                a
            } else if pb <= pc {
                b
            } else {
                c
            }
        }
    }
}

/// Reads an 8 bit RGB or RGBA PNG.
pub fn read_png(d: &[u8]) -> Result<Pix, String> {
    ensure!(d.starts_with(b"\x89PNG\r\n\x1a\n"), "no PNG signature");
    let mut at = 8;
    let mut z = vec![];
    let (mut w, mut h, mut ch) = (0, 0, 0);
    loop {
        ensure!(at + 12 <= d.len(), "PNG ends early");
        let n = u32::from_be_bytes(d[at..at + 4].try_into().unwrap()) as usize;
        ensure!(at + 12 + n <= d.len(), "PNG chunk runs over the end");
        let kind = &d[at + 4..at + 8];
        let body = &d[at + 8..at + 8 + n];
        ensure!(crc(&d[at + 4..at + 8 + n]) == u32::from_be_bytes(d[at + 8 + n..at + 12 + n].try_into().unwrap()), "PNG checksum");
        match kind {
            b"IHDR" => {
                w = u32::from_be_bytes(body[..4].try_into().unwrap()) as usize;
                h = u32::from_be_bytes(body[4..8].try_into().unwrap()) as usize;
                ch = match (body[8], body[9], body[12]) {
                    (8, 2, 0) => 3,
                    (8, 6, 0) => 4,
                    x => return Err(format!("PNG of kind {x:?}")),
                };
            }
            b"IDAT" => z.extend(body),
            b"IEND" => break,
            _ => {}
        }
        at += 12 + n;
    }
    let raw = crate::wire::unzlib(&z)?;
    let row = w * ch;
    ensure!(raw.len() == h * (row + 1), "PNG has {} bytes of pixels", raw.len());
    let mut prev = vec![0u8; row];
    let mut px = vec![];
    for y in 0..h {
        let f = raw[y * (row + 1)];
        ensure!(f < 5, "PNG filter {f}");
        let mut cur = raw[y * (row + 1) + 1..][..row].to_vec();
        for i in 0..row {
            let a = if i >= ch { cur[i - ch] } else { 0 };
            let c = if i >= ch { prev[i - ch] } else { 0 };
            cur[i] = cur[i].wrapping_add(predict(f, a, prev[i], c));
        }
        for x in 0..w {
            let p = &cur[x * ch..];
            px.push([p[0], p[1], p[2], if ch == 4 { p[3] } else { 255 }].map(|v| v as u16 * 257));
        }
        prev = cur;
    }
    Ok(Pix { w, h, px })
}

fn le(d: &[u8], at: usize) -> Result<u32, String> {
    Ok(u32::from_le_bytes(d.get(at..at + 4).ok_or("BMP header ends early")?.try_into().unwrap()))
}
/// Reads a 24 or 32 bit BMP.
pub fn read_bmp(d: &[u8]) -> Result<Pix, String> {
    ensure!(d.starts_with(b"BM"), "no BMP signature");
    ensure!(le(d, 2)? as usize == d.len(), "BMP claims {} of {} bytes", le(d, 2)?, d.len());
    let off = le(d, 10)? as usize;
    let hdr = le(d, 14)? as usize;
    let (w, hh) = (le(d, 18)? as i32, le(d, 22)? as i32);
    let bits = (le(d, 26)? >> 16) as usize;
    let comp = le(d, 30)?;
    ensure!(w > 0 && hh != 0 && (bits == 24 || bits == 32), "BMP {w}x{hh} of {bits} bits");
    let (w, h) = (w as usize, hh.unsigned_abs() as usize);
    let masks = match (comp, bits) {
        (0, 24) => [0xff0000, 0xff00, 0xff, 0],
        (0, 32) => [0xff0000, 0xff00, 0xff, 0],
        (3, 32) => [le(d, 54)?, le(d, 58)?, le(d, 62)?, if hdr >= 56 { le(d, 66)? } else { 0 }],
        _ => return Err(format!("BMP compression {comp} with {bits} bits")),
    };
    let bytes = bits / 8;
    let row = (w * bytes).div_ceil(4) * 4;
    ensure!(off + row * h <= d.len(), "BMP pixels run over the end");
    let mut px = vec![];
    for y in 0..h {
        let yy = if hh > 0 { h - 1 - y } else { y };
        for x in 0..w {
            let p = &d[off + yy * row + x * bytes..];
            let v = p[0] as u32 | (p[1] as u32) << 8 | (p[2] as u32) << 16 | if bytes == 4 { (p[3] as u32) << 24 } else { 0 };
            let mut q = [65535u16; 4];
            for c in 0..4 {
                if masks[c] != 0 {
                    q[c] = ((v & masks[c]) >> masks[c].trailing_zeros()) as u16 * 257;
                }
            }
            px.push(q);
        }
    }
    Ok(Pix { w, h, px })
}
/// A BMP as other tools write it: 24 bit or 32 bit with alpha, either way up.
pub fn gen_bmp(t: &mut Tape, p: &Pix) -> Vec<u8> {
    let alpha = p.transparent();
    let down = t.chance(1, 3);
    let v5 = t.bool();
    let (hdr, bits, comp) = if alpha { (if v5 { 124usize } else { 108 }, 32u32, 3u32) } else { (40, 24, 0) };
    let row = (p.w * bits as usize / 8).div_ceil(4) * 4;
    let gap = if t.chance(1, 4) { t.usize(1, 5) * 4 } else { 0 };
    let off = 14 + hdr + gap;
    let mut o = b"BM".to_vec();
    o.extend(((off + row * p.h) as u32).to_le_bytes());
    o.extend([0; 4]);
    o.extend((off as u32).to_le_bytes());
    o.extend((hdr as u32).to_le_bytes());
    o.extend((p.w as i32).to_le_bytes());
    o.extend((if down { -(p.h as i32) } else { p.h as i32 }).to_le_bytes());
    o.extend((1 | bits << 16).to_le_bytes());
    o.extend(comp.to_le_bytes());
    o.extend(((row * p.h) as u32).to_le_bytes());
    o.extend(2835u32.to_le_bytes());
    o.extend(2835u32.to_le_bytes());
    o.extend([0; 8]);
    let order: [u32; 4] = if comp == 3 && t.bool() { [0xff, 0xff00, 0xff0000, 0xff000000] } else { [0xff0000, 0xff00, 0xff, 0xff000000] };
    if comp == 3 {
        for m in order {
            o.extend(m.to_le_bytes());
        }
        o.extend(b"BGRs");
    }
    o.resize(off, 0);
    for y in 0..p.h {
        let yy = if down { y } else { p.h - 1 - y };
        let start = o.len();
        for x in 0..p.w {
            let q = p.px[yy * p.w + x];
            let mut v = 0u32;
            for c in 0..4 {
                v |= ((q[c] / 257) as u32) << order[c].trailing_zeros();
            }
            o.extend(&v.to_le_bytes()[..bits as usize / 8]);
        }
        o.resize(start + row, 0);
    }
    o
}
