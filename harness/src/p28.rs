//! P28: the record streams of a table (BIFF): what the public writer puts down is the documented encoding,
//! and the public reader takes any such stream apart, whatever is left unread of a record.

use crate::engine::*;
use crate::ensure;
use crate::tape::{hash_bytes, Tape};
use serde_json::json;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::model::{StringEncoding, StringWithEncoding};

/// A typed value of a record.
#[derive(Clone, Debug, PartialEq)]
enum V {
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    I64(i64),
    U64(u64),
    F32(u32),
    F64(u64),
    Bool(bool),
    /// length as a byte, Latin-1
    Short(String),
    /// length as four bytes, Latin-1
    Str(String),
    /// as Str, but an empty one is one zero byte
    StrZ(String),
    /// length as four bytes, UTF-16
    Wide(String),
    Raw(Vec<u8>),
    /// length as four bytes
    Len(Vec<u8>),
    Code(bool, String),
}
impl V {
    fn bytes(&self) -> Vec<u8> {
        let with_len = |d: Vec<u8>| [(d.len() as u32).to_le_bytes().to_vec(), d].concat();
        match self {
            V::U8(v) => vec![*v],
            V::I8(v) => vec![*v as u8],
            V::U16(v) => v.to_le_bytes().to_vec(),
            V::I16(v) => v.to_le_bytes().to_vec(),
            V::U32(v) => v.to_le_bytes().to_vec(),
            V::I32(v) => v.to_le_bytes().to_vec(),
            V::I64(v) => v.to_le_bytes().to_vec(),
            V::U64(v) | V::F64(v) => v.to_le_bytes().to_vec(),
            V::F32(v) => v.to_le_bytes().to_vec(),
            V::Bool(v) => vec![*v as u8, 0, 0, 0],
            V::Short(s) => [vec![s.chars().count() as u8], latin1(s)].concat(),
            V::Str(s) => with_len(latin1(s)),
            V::StrZ(s) if s.is_empty() => vec![1, 0, 0, 0, 0],
            V::StrZ(s) => with_len(latin1(s)),
            V::Wide(s) => with_len(s.encode_utf16().flat_map(|u| [u as u8, (u >> 8) as u8]).collect()),
            V::Raw(b) => b.clone(),
            V::Len(b) => with_len(b.clone()),
            V::Code(utf8, s) => with_len(if *utf8 { s.as_bytes().to_vec() } else { latin1(s) }),
        }
    }
    fn write(&self, w: &mut BiffWriter) {
        match self {
            V::U8(v) => w.write_u8(*v),
            V::I8(v) => w.write_8(*v),
            V::U16(v) => w.write_u16(*v),
            V::I16(v) => w.write_16(*v),
            V::U32(v) => w.write_u32(*v),
            V::I32(v) => w.write_32(*v),
            V::I64(v) => w.write_data(&v.to_le_bytes()),
            V::U64(v) | V::F64(v) => w.write_data(&v.to_le_bytes()),
            V::F32(v) => w.write_f32(f32::from_bits(*v)),
            V::Bool(v) => w.write_bool(*v),
            V::Short(s) => w.write_short_string(s),
            V::Str(s) => w.write_string(s),
            V::StrZ(s) => w.write_string_empty_zero(s),
            V::Wide(s) => w.write_wide_string(s),
            V::Raw(b) => w.write_data(b),
            V::Len(b) => w.write_length_prefixed_data(b),
            V::Code(utf8, s) => w.write_string_with_encoding(&code(*utf8, s)),
        }
    }
}
fn code(utf8: bool, s: &str) -> StringWithEncoding {
    StringWithEncoding { encoding: if utf8 { StringEncoding::Utf8 } else { StringEncoding::Latin1 }, string: s.to_string() }
}
fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
fn text(t: &mut Tape, latin: bool, max: usize) -> String {
    let n = t.small_len(max);
    (0..n)
        .map(|_| match t.below(6) {
            0 => char::from_u32(t.range(0xa0, 0xff) as u32).unwrap(),
            1 if !latin => *t.pick(&['世', '\u{1f600}', 'ß', '\u{feff}', '\u{10ffff}']),
            2 => *t.pick(&[' ', '\t', '\r', '\n', '"']),
            _ => char::from_u32(t.range(0x21, 0x7e) as u32).unwrap(),
        })
        .collect()
}
fn value(t: &mut Tape, short: bool) -> V {
    let lim = if short { 40 } else { 700 };
    match t.below(18) {
        0 => V::U8(t.any() as u8),
        1 => V::I8(t.any() as i8),
        2 => V::U16(t.any() as u16),
        3 => V::I16(t.any() as i16),
        4 => V::U32(t.any() as u32),
        5 => V::I32(t.any() as i32),
        6 => V::I64(t.any() as i64),
        7 => V::U64(t.any()),
        8 => V::F32(f32_bits(t)),
        9 => V::F64({
            let v = t.any();
            if f64::from_bits(v).is_nan() {
                0x4009_21fb_5444_2d18
            } else {
                v
            }
        }),
        10 => V::Bool(t.bool()),
        11 => V::Short(text(t, true, 255)),
        12 => V::Str(text(t, true, lim)),
        13 => V::StrZ(text(t, true, lim)),
        14 => V::Wide(text(t, false, lim)),
        15 => V::Raw({
            let n = t.small_len(lim);
            t.bytes(n)
        }),
        16 => V::Len({
            let n = t.small_len(lim);
            t.bytes(n)
        }),
        _ => {
            let utf8 = t.bool();
            let s = text(t, !utf8, lim);
            // what has no byte above 127 or reads as UTF-8 is UTF-8
            let utf8 = utf8 || std::str::from_utf8(&latin1(&s)).is_ok();
            let utf8 = utf8 && (s.is_ascii() || std::str::from_utf8(s.as_bytes()).is_ok());
            V::Code(utf8, s)
        }
    }
}
fn f32_bits(t: &mut Tape) -> u32 {
    let v = t.any() as u32;
    if f32::from_bits(v).is_nan() {
        0x4049_0fdb
    } else {
        v
    }
}
fn tag(t: &mut Tape) -> String {
    let known = ["NAME", "VCEN", "CODE", "PIID", "DPNT", "FONT", "TMON", "STRT", "END", "A", "ABCD", "ENDA", "ends", "PTr1"];
    if t.chance(1, 3) {
        return t.pick(&known).to_string();
    }
    let n = if t.chance(1, 4) { t.usize(1, 3) } else { 4 };
    let s: String = (0..n).map(|_| *t.pick(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char).collect();
    if s == "ENDB" {
        "ENDC".into()
    } else {
        s
    }
}
/// A record as the format has it: size (of the tag and what follows), tag, payload.
fn record(tag: &str, payload: &[u8]) -> Vec<u8> {
    let mut o = ((payload.len() + 4) as u32).to_le_bytes().to_vec();
    o.extend([tag.as_bytes(), &[0; 4]].concat()[..4].iter());
    o.extend(payload);
    o
}
struct Pair(V, V);
impl BiffWrite for Pair {
    fn biff_write(&self, w: &mut BiffWriter) {
        self.0.write(w);
        self.1.write(w);
    }
}
struct Nested(Vec<(String, Vec<V>)>);
impl Nested {
    fn bytes(&self) -> Vec<u8> {
        let mut o: Vec<u8> = self.0.iter().flat_map(|(t, v)| record(t, &v.iter().flat_map(V::bytes).collect::<Vec<_>>())).collect();
        o.extend(record("ENDB", &[]));
        o
    }
}

fn written(t: &mut Tape, c: &mut Case) -> Res {
    let mut w = BiffWriter::new();
    let mut want: Vec<u8> = vec![];
    let n = t.usize(1, 14);
    let mut log = vec![];
    let mut open = false;
    for _ in 0..n {
        let tg = tag(t);
        let k = t.below(20);
        let f = |t: &mut Tape| f32_bits(t);
        let what = match k {
            0 => {
                w.write_tagged_empty(&tg);
                want.extend(record(&tg, &[]));
                "write_tagged_empty"
            }
            1 => {
                let v = t.bool();
                w.write_tagged_bool(&tg, v);
                want.extend(record(&tg, &V::Bool(v).bytes()));
                "write_tagged_bool"
            }
            2 => {
                let v = f(t);
                w.write_tagged_f32(&tg, f32::from_bits(v));
                want.extend(record(&tg, &v.to_le_bytes()));
                "write_tagged_f32"
            }
            3 => {
                let v = t.any() as u32;
                w.write_tagged_u32(&tg, v);
                want.extend(record(&tg, &v.to_le_bytes()));
                "write_tagged_u32"
            }
            4 => {
                let v = t.any() as i32;
                w.write_tagged_i32(&tg, v);
                want.extend(record(&tg, &v.to_le_bytes()));
                "write_tagged_i32"
            }
            5 | 6 => {
                let s = text(t, true, 600);
                let b = V::Str(s.clone()).bytes();
                let mut r = record(&tg, &b);
                if k == 5 {
                    w.write_tagged_string(&tg, &s);
                } else {
                    w.write_tagged_string_no_size(&tg, &s);
                    r[..4].copy_from_slice(&[4, 0, 0, 0]);
                }
                want.extend(r);
                ["write_tagged_string", "write_tagged_string_no_size"][k as usize - 5]
            }
            7 => {
                let utf8 = t.bool();
                let s = text(t, !utf8, 600);
                w.write_tagged_string_with_encoding_no_size(&tg, &code(utf8, &s));
                let mut r = record(&tg, &V::Code(utf8, s).bytes());
                r[..4].copy_from_slice(&[4, 0, 0, 0]);
                want.extend(r);
                "write_tagged_string_with_encoding_no_size"
            }
            8 => {
                let s = text(t, false, 600);
                w.write_tagged_wide_string(&tg, &s);
                want.extend(record(&tg, &V::Wide(s).bytes()));
                "write_tagged_wide_string"
            }
            9..=11 => {
                let v = [f(t), f(t), f(t)];
                let q = v.map(f32::from_bits);
                let mut b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                match k {
                    9 => {
                        w.write_tagged_vec2(&tg, q[0], q[1]);
                        b.truncate(8);
                    }
                    10 => {
                        w.write_tagged_padded_vector(&tg, q[0], q[1], q[2]);
                        b.extend([0; 4]);
                    }
                    _ => w.write_tagged_unpadded_vector(&tg, q[0], q[1], q[2]),
                }
                want.extend(record(&tg, &b));
                ["write_tagged_vec2", "write_tagged_padded_vector", "write_tagged_unpadded_vector"][k as usize - 9]
            }
            12 | 13 => {
                let n = t.small_len(900);
                let b = t.bytes(n);
                let mut r = record(&tg, &b);
                if k == 12 {
                    w.write_tagged_data(&tg, &b);
                } else {
                    w.write_tagged_data_without_size(&tg, &b);
                    r[..4].copy_from_slice(&[4, 0, 0, 0]);
                }
                want.extend(r);
                ["write_tagged_data", "write_tagged_data_without_size"][k as usize - 12]
            }
            14 | 15 => {
                let p = Pair(value(t, true), value(t, true));
                let mut r = record(&tg, &[p.0.bytes(), p.1.bytes()].concat());
                if k == 14 {
                    w.write_tagged(&tg, &p);
                } else {
                    w.write_tagged_without_size(&tg, &p);
                    r[..4].copy_from_slice(&[4, 0, 0, 0]);
                }
                want.extend(r);
                ["write_tagged", "write_tagged_without_size"][k as usize - 14]
            }
            16 => {
                let p = (value(t, true), value(t, true));
                w.write_tagged_with(&tg, &p, |p, w| {
                    p.0.write(w);
                    p.1.write(w);
                });
                want.extend(record(&tg, &[p.0.bytes(), p.1.bytes()].concat()));
                "write_tagged_with"
            }
            _ => {
                // by hand, and not always closed
                let vs: Vec<V> = (0..t.small_len(6)).map(|_| value(t, false)).collect();
                w.new_tag(&tg);
                let mut b = vec![];
                for v in &vs {
                    v.write(&mut w);
                    b.extend(v.bytes());
                }
                let mut r = record(&tg, &b);
                match t.below(4) {
                    0 => {
                        w.end_tag_no_size();
                        r[..4].copy_from_slice(&[4, 0, 0, 0]);
                        // closing again does nothing
                        if t.bool() {
                            w.end_tag();
                        }
                    }
                    1 => open = true,
                    _ => w.end_tag(),
                }
                want.extend(r);
                "new_tag"
            }
        };
        c.class(what);
        log.push(format!("{what} {tg}"));
    }
    let endb = t.chance(4, 5);
    w.close(endb);
    if endb {
        want.extend(record("ENDB", &[]));
    }
    c.class_if(open, "record left open");
    c.nontrivial = n >= 3;
    c.hash = hash_bytes(&want);
    c.sample = Some(json!(format!("{log:?}, {} bytes", want.len())));
    let got = w.get_data();
    let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    ensure!(
        got == &want[..],
        "{log:?}, closed with end mark {endb}: {} bytes written, {} expected, the first difference is at byte {at} (written {:?}, expected {:?})",
        got.len(),
        want.len(),
        &got[at..(at + 12).min(got.len())],
        &want[at..(at + 12).min(want.len())]
    );
    Ok(())
}

/// Takes one value from the reader, in a random one of the ways there are.
fn take(t: &mut Tape, r: &mut BiffReader<'_>, v: &V) -> Result<(), String> {
    let same = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{what} gives {got}, written was {want}")) };
    macro_rules! eq {
        ($what:expr, $got:expr, $want:expr) => {
            same($what, format!("{:?}", $got), format!("{:?}", $want))
        };
    }
    match v {
        V::U8(v) => eq!("get_u8", r.get_u8(), *v),
        V::I8(v) => eq!("get_u8", r.get_u8() as i8, *v),
        V::U16(v) if t.bool() => eq!("get_u16_array", r.get_u16_array(1), vec![*v]),
        V::U16(v) => eq!("get_u16", r.get_u16(), *v),
        V::I16(v) if t.bool() => eq!("get_i16_array", r.get_i16_array(1), vec![*v]),
        V::I16(v) => eq!("get_i16", r.get_i16(), *v),
        V::U32(v) if t.bool() => eq!("get_u32_array", r.get_u32_array(1), vec![*v]),
        V::U32(v) => eq!("get_u32", r.get_u32(), *v),
        V::I32(v) if t.bool() => eq!("get_32", r.get_32(), *v),
        V::I32(v) if t.bool() => eq!("get_i32_array", r.get_i32_array(1), vec![*v]),
        V::I32(v) => eq!("get_i32", r.get_i32(), *v),
        V::I64(v) if t.bool() => eq!("get_i64_array", r.get_i64_array(1), vec![*v]),
        V::I64(v) => eq!("get_i64", r.get_i64(), *v),
        V::U64(v) if t.bool() => eq!("get_u64_array", r.get_u64_array(1), vec![*v]),
        V::U64(v) => eq!("get_u64", r.get_u64(), *v),
        V::F32(v) if t.bool() => eq!("get_f32_array", r.get_f32_array(1)[0].to_bits(), *v),
        V::F32(v) => eq!("get_f32", r.get_f32().to_bits(), *v),
        V::F64(v) if t.bool() => eq!("get_f64_array", r.get_f64_array(1)[0].to_bits(), *v),
        V::F64(v) => eq!("get_double", r.get_double().to_bits(), *v),
        V::Bool(v) => eq!("get_bool", r.get_bool(), *v),
        V::Short(s) => {
            let n = r.get_u8() as usize;
            eq!("get_str", r.get_str(n), *s)
        }
        V::Str(s) if t.bool() => eq!("get_string_array", r.get_string_array(1), vec![s.clone()]),
        V::Str(s) | V::StrZ(s) => eq!("get_string", r.get_string(), *s),
        V::Wide(s) => eq!("get_wide_string", r.get_wide_string(), *s),
        V::Raw(b) => eq!("get", r.get(b.len()).to_vec(), *b),
        V::Len(b) => {
            let n = r.get_u32() as usize;
            eq!("get", r.get(n).to_vec(), *b)
        }
        V::Code(utf8, s) => {
            let n = r.get_u32() as usize;
            // this one leaves the count of what remains to the caller
            let b = r.get_str_with_encoding_no_remaining_update(n);
            eq!("get_str_with_encoding_no_remaining_update", b, code(*utf8, s))
        }
    }
}
/// The records a reader sees: a tag and the values in it.
fn records(t: &mut Tape, n: usize) -> Vec<(String, Vec<V>)> {
    (0..n)
        .map(|_| {
            let tg = tag(t);
            let k = t.small_len(7);
            let vs = (0..k)
                .map(|_| loop {
                    let v = value(t, false);
                    // reading one of these does not count, so it is taken on its own below
                    if !matches!(v, V::Code(..)) {
                        break v;
                    }
                })
                .collect();
            (tg, vs)
        })
        .collect()
}
fn read(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 12);
    let recs = Nested(records(t, n));
    let mut data = recs.bytes();
    let tail = t.chance(1, 4);
    if tail {
        let k = t.usize(1, 30);
        data.extend(t.bytes(k));
    }
    c.hash = hash_bytes(&data);
    c.nontrivial = n >= 2;
    c.sample = Some(json!(format!("{:?}", recs.0.iter().map(|(t, v)| format!("{t}:{}", v.len())).collect::<Vec<_>>())));
    // run away from the case's own values: the reader may panic
    let mut local = Tape::fresh(t.any());
    let mut classes = vec![];
    let out = guard(|| -> Res {
        let t = &mut local;
        let mut r = BiffReader::new(&data);
        if tail {
            r.disable_warn_remaining();
        }
        let mut pos = 0usize;
        for (i, (tg, vs)) in recs.0.iter().enumerate() {
            ensure!(!r.is_eof(), "at the end before record {i}");
            let got = r.next(t.bool());
            ensure!(got.as_deref() == Some(tg.as_str()), "record {i}: next() gives {got:?}, the tag is {tg:?}");
            ensure!(r.tag() == *tg, "record {i}: tag() gives {:?}, the tag is {tg:?}", r.tag());
            let size: usize = vs.iter().map(|v| v.bytes().len()).sum();
            ensure!(r.pos() == pos + 8, "record {i}: at byte {} after the tag instead of {}", r.pos(), pos + 8);
            ensure!(r.remaining_in_record() == size, "record {i}: {} bytes said to remain after the tag instead of {size}", r.remaining_in_record());
            let stop = if t.bool() { vs.len() } else { t.usize(0, vs.len()) };
            let mut seen = 0;
            for (j, v) in vs[..stop].iter().enumerate() {
                if t.chance(1, 8) {
                    r.skip(v.bytes().len());
                    classes.push("value skipped");
                } else {
                    take(t, &mut r, v).map_err(|e| format!("record {i} ({tg}), value {j}: {e}"))?;
                }
                seen += v.bytes().len();
                ensure!(
                    r.remaining_in_record() == size - seen && r.pos() == pos + 8 + seen,
                    "record {i} ({tg}) after value {j} ({v:?}): {} bytes remain instead of {}, at byte {} instead of {}",
                    r.remaining_in_record(),
                    size - seen,
                    r.pos(),
                    pos + 8 + seen
                );
            }
            let rest: Vec<u8> = vs[stop..].iter().flat_map(V::bytes).collect();
            match t.below(4) {
                0 => {
                    let k = r.skip_tag();
                    ensure!(k == rest.len(), "record {i}: skip_tag() says {k} bytes, {} were left", rest.len());
                    classes.push("rest skipped");
                }
                1 => {
                    let b = r.get_record_data(false);
                    ensure!(b == rest, "record {i}: get_record_data(false) gives {} bytes, {} were left", b.len(), rest.len());
                    classes.push("rest taken");
                }
                2 if stop == 0 => {
                    let b = r.get_record_data(true);
                    let want = [[tg.as_bytes(), &[0; 4]].concat()[..4].to_vec(), rest.clone()].concat();
                    ensure!(b == want, "record {i}: get_record_data(true) gives {b:?} instead of {want:?}");
                    classes.push("whole record taken");
                }
                _ => {
                    if !rest.is_empty() {
                        classes.push("rest left");
                    }
                }
            }
            pos += 8 + size;
        }
        let got = r.next(true);
        ensure!(got.is_none(), "next() gives {got:?} at the end mark");
        ensure!(r.is_eof() && r.tag() == "ENDB", "not at the end after the end mark (tag {:?})", r.tag());
        Ok(())
    });
    for k in classes {
        c.class(k);
    }
    c.class_if(tail, "data after the end mark");
    match out {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {e}")),
    }
}

/// Several values of one kind, taken as a list.
fn arrays(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.small_len(60);
    let k = t.below(9);
    let vs: Vec<V> = (0..n)
        .map(|_| match k {
            0 => V::U16(t.any() as u16),
            1 => V::I16(t.any() as i16),
            2 => V::U32(t.any() as u32),
            3 => V::I32(t.any() as i32),
            4 => V::I64(t.any() as i64),
            5 => V::U64(t.any()),
            6 => V::F32(f32_bits(t)),
            7 => V::F64(t.any() >> 2),
            _ => V::Str(text(t, true, 30)),
        })
        .collect();
    let after = value(t, true);
    let after = if matches!(after, V::Code(..)) { V::U8(9) } else { after };
    let mut b: Vec<u8> = vs.iter().flat_map(V::bytes).collect();
    b.extend(after.bytes());
    let data = [record("LIST", &b), record("ENDB", &[])].concat();
    c.hash = hash_bytes(&data);
    c.nontrivial = n >= 2;
    c.sample = Some(json!(format!("kind {k} x {n}")));
    c.class(["u16", "i16", "u32", "i32", "i64", "u64", "f32", "f64", "text"][k as usize]);
    let mut local = Tape::fresh(7);
    let out = guard(|| -> Res {
        let mut r = BiffReader::new(&data);
        r.next(true);
        let got: Vec<V> = match k {
            0 => r.get_u16_array(n).into_iter().map(V::U16).collect(),
            1 => r.get_i16_array(n).into_iter().map(V::I16).collect(),
            2 => r.get_u32_array(n).into_iter().map(V::U32).collect(),
            3 => r.get_i32_array(n).into_iter().map(V::I32).collect(),
            4 => r.get_i64_array(n).into_iter().map(V::I64).collect(),
            5 => r.get_u64_array(n).into_iter().map(V::U64).collect(),
            6 => r.get_f32_array(n).into_iter().map(|v| V::F32(v.to_bits())).collect(),
            7 => r.get_f64_array(n).into_iter().map(|v| V::F64(v.to_bits())).collect(),
            _ => r.get_string_array(n).into_iter().map(V::Str).collect(),
        };
        ensure!(got == vs, "a list of {n} is read as {got:?} instead of {vs:?}");
        take(&mut local, &mut r, &after).map_err(|e| format!("after a list of {n}: {e}"))?;
        ensure!(r.remaining_in_record() == 0, "{} bytes remain at the end of the record", r.remaining_in_record());
        ensure!(r.next(true).is_none(), "no end mark after the list");
        Ok(())
    });
    match out {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {e}")),
    }
}

/// A record that ends where it says, a stream inside it, and data of unknown length up to a tag.
struct Inner(Vec<u8>);
impl BiffRead for Inner {
    fn biff_read(r: &mut BiffReader<'_>) -> Self {
        let mut o = vec![];
        while r.next(true).is_some() {
            o.extend(r.tag().as_bytes());
            o.push(b'=');
            o.extend(r.get_record_data(false));
            o.push(b';');
        }
        Inner(o)
    }
}
fn nested(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 5);
    let inner = Nested(records(t, n));
    let n = t.small_len(40);
    let bytes = t.bytes(n);
    let s = text(t, true, 80);
    let utf8 = t.bool();
    let src = text(t, !utf8, 300);
    let utf8 = utf8 || std::str::from_utf8(&latin1(&src)).is_ok();
    let utf8 = utf8 && (src.is_ascii() || std::str::from_utf8(src.as_bytes()).is_ok());
    // an item: a number, records without a header of their own, a script whose record says 4, data up to a tag
    let mut data = record("FONT", &[]);
    let at_inner = data.len();
    data.extend(inner.bytes());
    data.extend([vec![4, 0, 0, 0], b"CODE".to_vec(), V::Code(utf8, src.clone()).bytes()].concat());
    data.extend([vec![4, 0, 0, 0], b"NAME".to_vec(), V::Str(s.clone()).bytes()].concat());
    data.extend([vec![4, 0, 0, 0], b"BITS".to_vec()].concat());
    // an unknown number of bytes, which may look like the tag that ends them
    let mut blob = bytes.clone();
    let fake = t.bool();
    if fake {
        let at = t.usize(0, blob.len());
        // the tag with a size before it that cannot be
        blob.splice(at..at, [vec![3, 0, 0, 0], b"ALTV".to_vec()].concat());
    }
    data.extend(&blob);
    data.extend(record("ALTV", &V::U32(77).bytes()));
    data.extend([vec![4, 0, 0, 0], b"DATA".to_vec(), V::Len(bytes.clone()).bytes()].concat());
    data.extend(record("ENDB", &[]));
    c.hash = hash_bytes(&data);
    c.nontrivial = inner.0.len() > 1;
    c.sample = Some(json!(format!("{} records inside, {} bytes of script, {} of data", inner.0.len(), src.len(), blob.len())));
    c.class_if(fake, "tag inside the data");
    let want: Vec<u8> = inner
        .0
        .iter()
        .flat_map(|(t, v)| {
            let mut o = [t.as_bytes(), b"="].concat();
            o.extend(v.iter().flat_map(V::bytes));
            o.push(b';');
            o
        })
        .collect();
    let out = guard(|| -> Res {
        let mut r = BiffReader::new(&data);
        let next = |r: &mut BiffReader<'_>, want: &str| {
            let g = r.next(true);
            if g.as_deref() == Some(want) {
                Ok(())
            } else {
                Err(format!("next() gives {g:?} where {want:?} is"))
            }
        };
        next(&mut r, "FONT")?;
        let len = {
            let mut ch = r.child_reader();
            let i = Inner::biff_read(&mut ch);
            ensure!(i.0 == want, "the stream inside reads as {:?} instead of {:?}", i.0, want);
            ensure!(ch.is_eof(), "the stream inside is not at its end");
            ch.pos()
        };
        ensure!(len == inner.bytes().len(), "the stream inside took {len} bytes of {}", inner.bytes().len());
        r.skip_end_tag(len);
        ensure!(r.pos() == at_inner + len, "at byte {} after the stream inside instead of {}", r.pos(), at_inner + len);
        next(&mut r, "CODE")?;
        let n = r.get_u32_no_remaining_update() as usize;
        let got = r.get_str_with_encoding_no_remaining_update(n);
        ensure!(got == code(utf8, &src), "script reads as {got:?} instead of {:?}", code(utf8, &src));
        next(&mut r, "NAME")?;
        let got = r.get_string_no_remaining_update();
        ensure!(got == s, "text reads as {got:?} instead of {s:?}");
        next(&mut r, "BITS")?;
        let got = r.data_until(b"ALTV");
        ensure!(got == blob, "data up to a tag reads as {got:?} instead of {blob:?}");
        next(&mut r, "ALTV")?;
        let v = r.get_u32();
        ensure!(v == 77, "number after data reads as {v}");
        next(&mut r, "DATA")?;
        let got = r.get_data_no_remaining_update();
        ensure!(got == bytes, "data with its length reads as {got:?} instead of {bytes:?}");
        ensure!(r.next(true).is_none() && r.is_eof(), "no end mark where it is");
        // a reader for part of a record
        let mut r = BiffReader::with_remaining(&blob, blob.len());
        let k = blob.len() / 2;
        let got = r.get(k).to_vec();
        ensure!(got == blob[..k] && r.remaining_in_record() == blob.len() - k, "part of a record: {got:?}, {} left", r.remaining_in_record());
        let rest = r.get_data(blob.len() - k).to_vec();
        ensure!(rest == blob[k..], "rest of a record: {rest:?}");
        ensure!(r.is_eof(), "not at the end of the data");
        Ok(())
    });
    match out {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {e}")),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions = vec![
        "texts contain no zero character, which ends a text; numbers are not NaN",
        "a tag has one to four characters",
    ]
    .into_iter()
    .map(String::from)
    .collect();
    let n = ctx.n(150_000, 3_000_000);
    ctx.sub("write", n, "at least three records", written);
    let n = ctx.n(150_000, 3_000_000);
    ctx.sub("read", n, "at least two records", read);
    let n = ctx.n(80_000, 1_000_000);
    ctx.sub("lists", n, "at least two values", arrays);
    let n = ctx.n(80_000, 1_000_000);
    ctx.sub("nested", n, "more than one record inside", nested);
}
