//! Reference LZW codec (GIF flavour: 8 bit symbols, 9..12 bit codes, LSB first,
//! sub-blocks) written from the format description.

use std::collections::HashMap;

pub struct BitW {
    pub out: Vec<u8>,
    acc: u32,
    n: u32,
}
impl BitW {
    fn put(&mut self, code: u32, width: u32) {
        self.acc |= code << self.n;
        self.n += width;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    fn fin(mut self) -> Vec<u8> {
        if self.n > 0 {
            self.out.push(self.acc as u8);
        }
        self.out
    }
}

pub fn encode_raw(px: &[u8]) -> Vec<u8> {
    let mut w = BitW { out: vec![], acc: 0, n: 0 };
    let mut dict: HashMap<(u32, u8), u32> = HashMap::new();
    let mut next = 258u32;
    let mut width = 9;
    w.put(256, width);
    let mut cur: Option<u32> = None;
    for &b in px {
        match cur {
            None => cur = Some(b as u32),
            Some(c) => {
                if let Some(&k) = dict.get(&(c, b)) {
                    cur = Some(k);
                } else {
                    w.put(c, width);
                    if next < 4096 {
                        dict.insert((c, b), next);
                        if next == 1 << width && width < 12 {
                            width += 1;
                        }
                        next += 1;
                    } else {
                        w.put(256, width);
                        dict.clear();
                        next = 258;
                        width = 9;
                    }
                    cur = Some(b as u32);
                }
            }
        }
    }
    if let Some(c) = cur {
        w.put(c, width);
        if next == 1 << width && width < 12 {
            width += 1;
        }
    }
    w.put(257, width);
    w.fin()
}
pub fn block(raw: &[u8], max: usize) -> Vec<u8> {
    let mut o = vec![];
    for c in raw.chunks(max) {
        o.push(c.len() as u8);
        o.extend_from_slice(c);
    }
    o
}
pub fn encode(px: &[u8]) -> Vec<u8> {
    block(&encode_raw(px), 254)
}

pub fn unblock(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = b[i] as usize;
        o.extend_from_slice(b.get(i + 1..i + 1 + n).ok_or("block beyond the end")?);
        i += 1 + n;
    }
    Ok(o)
}
pub fn decode(b: &[u8]) -> Result<Vec<u8>, String> {
    decode_raw(&unblock(b)?)
}
pub fn decode_raw(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut out: Vec<u8> = vec![];
    let mut dict: Vec<(usize, usize)> = vec![]; // slices of out
    let mut width = 9u32;
    let (mut acc, mut n, mut p) = (0u32, 0u32, 0usize);
    let mut prev: Option<(usize, usize)> = None;
    loop {
        while n < width {
            let Some(&x) = d.get(p) else { return Err("no end code".into()) };
            acc |= (x as u32) << n;
            n += 8;
            p += 1;
        }
        let code = acc & ((1 << width) - 1);
        acc >>= width;
        n -= width;
        match code {
            256 => {
                dict.clear();
                width = 9;
                prev = None;
                continue;
            }
            257 => return Ok(out),
            _ => {}
        }
        let start = out.len();
        if code < 256 {
            out.push(code as u8);
        } else {
            let i = (code - 258) as usize;
            if i < dict.len() {
                let (a, b) = dict[i];
                out.extend_from_within(a..b);
            } else if i == dict.len() {
                let (a, b) = prev.ok_or("bad first code")?;
                out.extend_from_within(a..b);
                let f = out[a];
                out.push(f);
            } else {
                return Err(format!("code {code} out of range"));
            }
        }
        if let Some((a, _)) = prev {
            if dict.len() + 258 < 4096 {
                // previous string plus the first symbol of this one is contiguous in out
                dict.push((a, start + 1));
                if dict.len() + 258 == 1 << width && width < 12 {
                    width += 1;
                }
            }
        }
        prev = Some((start, out.len()));
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn rt() {
        for n in [0usize, 1, 2, 300, 5000, 100000] {
            let v: Vec<u8> = (0..n).map(|i| ((i * i / 7) ^ (i >> 3)) as u8).collect();
            assert_eq!(super::decode(&super::encode(&v)).unwrap(), v);
        }
    }
}
