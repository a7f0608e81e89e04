//! The VPX container written independently of the library under test.

use crate::tape::hash_bytes;
use std::collections::{BTreeMap, HashMap};
use std::io::{Cursor, Read, Write};
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    U32(u32),
    I32(i32),
    F32(u32),
    Str(String),
    WStr(String),
    Color(u32),
    V2([u32; 2]),
    /// written with a fourth zero
    V3([u32; 3]),
    V3u([u32; 3]),
    V4([u32; 4]),
    Q8(u32),
    Enum(u32),
    Bytes(Vec<u8>),
    /// bytes follow a record of size 4
    NoSize(Vec<u8>),
    Font(FontV),
    Marker,
    /// one DPNT
    Sub(Vec<Rec>),
    /// record data is a record list plus trailing bytes
    Nested(Vec<Rec>, Vec<u8>),
    /// record list inside a record of size 4, followed by the records
    Jpeg(Vec<Rec>),
    Code(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct FontV {
    pub charset: u16,
    pub style: u8,
    pub weight: u16,
    pub size: u32,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub tag: &'static str,
    pub key: &'static str,
    pub val: Val,
    pub optional: bool,
}

pub fn r(tag: &'static str, key: &'static str, val: Val) -> Rec {
    Rec { tag, key, val, optional: false }
}

pub fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| if (c as u32) < 256 { c as u32 as u8 } else { b'?' }).collect()
}
pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
fn fs(out: &mut Vec<u8>, xs: &[u32]) {
    for x in xs {
        out.extend_from_slice(&x.to_le_bytes());
    }
}
fn lp(d: Vec<u8>) -> Vec<u8> {
    let mut o = (d.len() as u32).to_le_bytes().to_vec();
    o.extend(d);
    o
}

/// the payload of a record, without size and tag
pub fn payload(v: &Val) -> Vec<u8> {
    let mut o = vec![];
    match v {
        Val::Bool(b) => fs(&mut o, &[*b as u32]),
        Val::U32(x) | Val::F32(x) | Val::Color(x) | Val::Q8(x) | Val::Enum(x) => fs(&mut o, &[*x]),
        Val::I32(x) => fs(&mut o, &[*x as u32]),
        Val::Str(s) => o = lp(latin1(s)),
        Val::WStr(s) => o = lp(utf16(s)),
        Val::V2(x) => fs(&mut o, x),
        Val::V3(x) => {
            fs(&mut o, x);
            fs(&mut o, &[0]);
        }
        Val::V3u(x) => fs(&mut o, x),
        Val::V4(x) => fs(&mut o, x),
        Val::Bytes(b) | Val::NoSize(b) => o.extend_from_slice(b),
        Val::Font(f) => {
            o.push(1);
            o.extend_from_slice(&f.charset.to_le_bytes());
            o.push(f.style);
            o.extend_from_slice(&f.weight.to_le_bytes());
            o.extend_from_slice(&f.size.to_le_bytes());
            let n = latin1(&f.name);
            o.push(n.len() as u8);
            o.extend(n);
        }
        Val::Marker => {}
        Val::Sub(rs) | Val::Jpeg(rs) => {
            enc(rs, &mut o);
            end(&mut o);
        }
        Val::Nested(rs, t) => {
            enc(rs, &mut o);
            end(&mut o);
            o.extend_from_slice(t);
        }
        Val::Code(c) => o = lp(c.clone()),
    }
    o
}
pub fn is_nosize(v: &Val) -> bool {
    matches!(v, Val::NoSize(_) | Val::Font(_) | Val::Sub(_) | Val::Jpeg(_) | Val::Code(_))
}
pub fn tag4(t: &str) -> [u8; 4] {
    let mut x = [0u8; 4];
    x[..t.len()].copy_from_slice(t.as_bytes());
    x
}
pub fn enc_rec(x: &Rec, out: &mut Vec<u8>) {
    let p = payload(&x.val);
    let size = if is_nosize(&x.val) { 4 } else { 4 + p.len() as u32 };
    out.extend_from_slice(&size.to_le_bytes());
    out.extend_from_slice(&tag4(x.tag));
    out.extend_from_slice(&p);
}
pub fn enc(rs: &[Rec], out: &mut Vec<u8>) {
    for x in rs {
        enc_rec(x, out);
    }
}
pub fn end(out: &mut Vec<u8>) {
    out.extend_from_slice(&[4, 0, 0, 0]);
    out.extend_from_slice(b"ENDB");
}
pub fn enc_stream(rs: &[Rec]) -> Vec<u8> {
    let mut o = vec![];
    enc(rs, &mut o);
    end(&mut o);
    o
}

#[derive(Clone, Debug)]
pub struct Item {
    pub ty: u32,
    pub recs: Vec<Rec>,
}
impl Item {
    pub fn stream(&self) -> Vec<u8> {
        let mut o = self.ty.to_le_bytes().to_vec();
        enc(&self.recs, &mut o);
        end(&mut o);
        o
    }
    pub fn get(&self, tag: &str) -> Option<&Val> {
        self.recs.iter().find(|x| x.tag == tag).map(|x| &x.val)
    }
    pub fn get_mut(&mut self, tag: &str) -> Option<&mut Val> {
        self.recs.iter_mut().find(|x| x.tag == tag).map(|x| &mut x.val)
    }
    pub fn name(&self) -> String {
        match self.get("NAME") {
            Some(Val::WStr(s)) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn f(&self, tag: &str) -> f32 {
        match self.get(tag) {
            Some(Val::F32(b)) => f32::from_bits(*b),
            _ => 0.0,
        }
    }
    pub fn set_f(&mut self, tag: &str, v: f32) {
        if let Some(x) = self.get_mut(tag) {
            *x = Val::F32(v.to_bits());
        }
    }
    pub fn set(&mut self, tag: &str, v: Val) {
        if let Some(x) = self.get_mut(tag) {
            *x = v;
        }
    }
    pub fn points(&self) -> Vec<&Vec<Rec>> {
        self.recs
            .iter()
            .filter_map(|x| match &x.val {
                Val::Sub(s) => Some(s),
                _ => None,
            })
            .collect()
    }
}

#[derive(Clone, Debug)]
pub struct Sound {
    pub name: String,
    pub path: String,
    pub internal: String,
    /// format tag, channels, samples/s, avg bytes/s, block align, bits, cb
    pub fmt: (u16, u16, u32, u32, u16, u16, u16),
    pub data: Vec<u8>,
    pub target: u8,
    pub volume: u32,
    pub balance: u32,
    pub fade: u32,
}
pub fn is_wav_path(p: &str) -> bool {
    // extension of the last path component, both separators
    let base = p.rsplit(['/', '\\']).next().unwrap_or("");
    match base.rsplit_once('.') {
        Some((_, e)) => e.eq_ignore_ascii_case("wav"),
        None => true,
    }
}
impl Sound {
    pub fn stream(&self, version: u32) -> Vec<u8> {
        let mut o = vec![];
        o.extend(lp(latin1(&self.name)));
        o.extend(lp(latin1(&self.path)));
        o.extend(if self.internal.is_empty() { lp(vec![0]) } else { lp(latin1(&self.internal)) });
        if is_wav_path(&self.path) {
            let f = &self.fmt;
            o.extend_from_slice(&f.0.to_le_bytes());
            o.extend_from_slice(&f.1.to_le_bytes());
            o.extend_from_slice(&f.2.to_le_bytes());
            o.extend_from_slice(&f.3.to_le_bytes());
            o.extend_from_slice(&f.4.to_le_bytes());
            o.extend_from_slice(&f.5.to_le_bytes());
            o.extend_from_slice(&f.6.to_le_bytes());
        }
        o.extend(lp(self.data.clone()));
        o.push(self.target);
        if version >= 1031 {
            fs(&mut o, &[self.volume, self.balance, self.fade, self.volume]);
        }
        o
    }
}
#[derive(Clone, Debug)]
pub struct FontF {
    pub name: String,
    pub path: String,
    pub data: Vec<u8>,
}
impl FontF {
    pub fn recs(&self) -> Vec<Rec> {
        vec![
            r("NAME", "name", Val::Str(self.name.clone())),
            r("PATH", "path", Val::Str(self.path.clone())),
            r("SIZE", "", Val::U32(self.data.len() as u32)),
            r("DATA", "", Val::Bytes(self.data.clone())),
        ]
    }
}

#[derive(Clone, Debug, Default)]
pub struct Table {
    pub version: u32,
    /// stream name, raw bytes
    pub info: Vec<(String, Vec<u8>)>,
    pub cust: Vec<String>,
    pub gd: Vec<Rec>,
    pub items: Vec<Item>,
    pub images: Vec<Vec<Rec>>,
    pub sounds: Vec<Sound>,
    pub fonts: Vec<FontF>,
    pub colls: Vec<Vec<Rec>>,
}

pub type Streams = BTreeMap<String, Vec<u8>>;

pub const HASHED_INFO: [&str; 10] = ["TableName", "AuthorName", "TableVersion", "ReleaseDate", "AuthorEmail", "AuthorWebSite", "TableBlurb", "TableDescription", "TableRules", "Screenshot"];
pub const FIXED_INFO: [&str; 12] = ["TableName", "AuthorName", "Screenshot", "TableBlurb", "TableRules", "AuthorEmail", "ReleaseDate", "TableSaveRev", "TableVersion", "AuthorWebSite", "TableSaveDate", "TableDescription"];

impl Table {
    /// all streams except the signature
    pub fn plain_streams(&self) -> Streams {
        let mut s = Streams::new();
        s.insert("/GameStg/Version".into(), self.version.to_le_bytes().to_vec());
        for (n, d) in &self.info {
            s.insert(format!("/TableInfo/{n}"), d.clone());
        }
        let cust: Vec<Rec> = self.cust.iter().map(|c| r("CUST", "", Val::Str(c.clone()))).collect();
        s.insert("/GameStg/CustomInfoTags".into(), enc_stream(&cust));
        s.insert("/GameStg/GameData".into(), enc_stream(&self.gd));
        for (i, x) in self.items.iter().enumerate() {
            s.insert(format!("/GameStg/GameItem{i}"), x.stream());
        }
        for (i, x) in self.images.iter().enumerate() {
            s.insert(format!("/GameStg/Image{i}"), enc_stream(x));
        }
        for (i, x) in self.sounds.iter().enumerate() {
            s.insert(format!("/GameStg/Sound{i}"), x.stream(self.version));
        }
        for (i, x) in self.fonts.iter().enumerate() {
            s.insert(format!("/GameStg/Font{i}"), enc_stream(&x.recs()));
        }
        for (i, x) in self.colls.iter().enumerate() {
            s.insert(format!("/GameStg/Collection{i}"), enc_stream(x));
        }
        s
    }
    pub fn streams(&self) -> Streams {
        let mut s = self.plain_streams();
        let m = mac(&s);
        s.insert("/GameStg/MAC".into(), m);
        s
    }
    pub fn to_vpx(&self) -> Vec<u8> {
        build_cfb(&self.streams())
    }
    pub fn gd_get(&self, tag: &str) -> Option<&Val> {
        self.gd.iter().find(|x| x.tag == tag).map(|x| &x.val)
    }
    pub fn gd_set(&mut self, tag: &str, v: Val) {
        if let Some(x) = self.gd.iter_mut().find(|x| x.tag == tag) {
            x.val = v;
        }
    }
    /// set the counters of the game data to the list lengths
    pub fn fix_counts(&mut self) {
        let c = [("SEDT", self.items.len()), ("SSND", self.sounds.len()), ("SIMG", self.images.len()), ("SFNT", self.fonts.len()), ("SCOL", self.colls.len())];
        for (t, n) in c {
            self.gd_set(t, Val::U32(n as u32));
        }
    }
    pub fn script(&self) -> Vec<u8> {
        match self.gd_get("CODE") {
            Some(Val::Code(c)) => c.clone(),
            _ => vec![],
        }
    }
}

pub fn build_cfb(streams: &Streams) -> Vec<u8> {
    let mut c = cfb::CompoundFile::create(Cursor::new(Vec::new())).unwrap();
    for st in ["/GameStg", "/TableInfo"] {
        c.create_storage(st).unwrap();
    }
    for (k, v) in streams {
        if let Some((dir, _)) = k.rsplit_once('/') {
            if !dir.is_empty() && !c.is_storage(dir) {
                c.create_storage_all(dir).unwrap();
            }
        }
        let mut s = c.create_stream(k).unwrap();
        s.write_all(v).unwrap();
        s.flush().unwrap();
    }
    c.flush().unwrap();
    c.into_inner().into_inner()
}

pub fn dump_cfb(bytes: &[u8]) -> Result<Streams, String> {
    let mut c = cfb::CompoundFile::open(Cursor::new(bytes)).map_err(|e| format!("not a compound file: {e}"))?;
    let paths: Vec<_> = c.walk().filter(|e| e.is_stream()).map(|e| e.path().to_path_buf()).collect();
    let mut m = Streams::new();
    for p in paths {
        let mut v = vec![];
        c.open_stream(&p).map_err(|e| e.to_string())?.read_to_end(&mut v).map_err(|e| e.to_string())?;
        m.insert(p.to_string_lossy().to_string(), v);
    }
    Ok(m)
}

/// differences of two stream sets
pub fn diff_streams(want: &Streams, got: &Streams) -> Result<(), String> {
    for k in want.keys() {
        if !got.contains_key(k) {
            return Err(format!("stream {k} is missing"));
        }
    }
    for (k, v) in got {
        match want.get(k) {
            None => return Err(format!("unexpected stream {k}")),
            Some(w) if w != v => return Err(format!("stream {k} differs: {}", describe(k, w, v))),
            _ => {}
        }
    }
    Ok(())
}

pub fn describe(k: &str, w: &[u8], v: &[u8]) -> String {
    let biff = k.contains("GameItem") || k.contains("GameData") || k.contains("Image") || k.contains("Collection") || k.contains("Font") || k.contains("CustomInfo");
    if biff {
        let skip = if k.contains("GameItem") { 4 } else { 0 };
        if w.len() >= skip && v.len() >= skip {
            if let (Ok(a), Ok(b)) = (walk(&w[skip..]), walk(&v[skip..])) {
                for i in 0..a.len().max(b.len()) {
                    let x = a.get(i).map(|(t, d)| (t.as_str(), short(d)));
                    let y = b.get(i).map(|(t, d)| (t.as_str(), short(d)));
                    if a.get(i) != b.get(i) {
                        return format!("record {i} want {x:?} got {y:?}");
                    }
                }
            }
        }
    }
    let p = w.iter().zip(v.iter()).position(|(a, b)| a != b).unwrap_or(w.len().min(v.len()));
    format!("lengths {} / {}, first difference at byte {p}: want {} got {}", w.len(), v.len(), short(&w[p.min(w.len())..]), short(&v[p.min(v.len())..]))
}
pub fn short(d: &[u8]) -> String {
    let h = hex::encode(&d[..d.len().min(24)]);
    if d.len() > 24 { format!("{h}..({} bytes)", d.len()) } else { h }
}

/// Flat walk over the records of a stream: tag, data. Size 4 records that carry
/// out-of-record data are handled by tag.
pub fn walk(mut d: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut out = vec![];
    let u32at = |d: &[u8], p: usize| -> Result<u32, String> { d.get(p..p + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or("short stream".to_string()) };
    while !d.is_empty() {
        let size = u32at(d, 0)? as usize;
        let tag = String::from_utf8_lossy(d.get(4..8).ok_or("short tag")?).trim_end_matches('\0').to_string();
        if size < 4 {
            return Err(format!("record {tag} of size {size}"));
        }
        let mut dlen = size - 4;
        if size == 4 {
            match tag.as_str() {
                "CODE" => dlen = 4 + u32at(d, 8)? as usize,
                "FONT" => dlen = 11 + *d.get(18).ok_or("short font")? as usize,
                "BITS" => {
                    let mut p = 8;
                    loop {
                        if d.len() < p + 8 {
                            return Err("BITS without ALTV".into());
                        }
                        if &d[p + 4..p + 8] == b"ALTV" && u32at(d, p)? == 8 {
                            break;
                        }
                        p += 1;
                    }
                    dlen = p - 8;
                }
                _ => {}
            }
        }
        let data = d.get(8..8 + dlen).ok_or_else(|| format!("record {tag} too long"))?;
        out.push((tag, data.to_vec()));
        d = &d[8 + dlen..];
    }
    Ok(out)
}

/// The integrity code as Visual Pinball computes it.
pub fn mac(s: &Streams) -> Vec<u8> {
    use md2::Digest;
    let mut h = md2::Md2::new();
    h.update(b"Visual Pinball");
    let mut tags: Vec<String> = vec![];
    if let Some(d) = s.get("/GameStg/Version") {
        h.update(d);
    }
    for n in HASHED_INFO {
        if let Some(d) = s.get(&format!("/TableInfo/{n}")) {
            h.update(d);
        }
    }
    let recs = |d: &[u8], tags: &mut Vec<String>, h: &mut md2::Md2| {
        for (t, data) in walk(d).unwrap_or_default() {
            h.update(&t.as_bytes()[..t.len()]);
            if t.len() < 4 {
                h.update(&[0u8; 4][t.len()..]);
            }
            if t == "CODE" {
                h.update(&data[4..]);
            } else {
                h.update(&data);
            }
            if t == "CUST" {
                tags.push(data[4..].iter().map(|b| *b as char).collect());
            }
        }
    };
    if let Some(d) = s.get("/GameStg/CustomInfoTags") {
        recs(d, &mut tags, &mut h);
    }
    for t in tags.clone() {
        let want = format!("/TableInfo/{t}").to_uppercase();
        if let Some((_, d)) = s.iter().find(|(k, _)| k.to_uppercase() == want) {
            h.update(d);
        }
    }
    let mut none = vec![];
    if let Some(d) = s.get("/GameStg/GameData") {
        recs(d, &mut none, &mut h);
    }
    let mut i = 0;
    while let Some(d) = s.get(&format!("/GameStg/Collection{i}")) {
        recs(d, &mut none, &mut h);
        i += 1;
    }
    h.finalize().to_vec()
}

pub fn zlib(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
pub fn unzlib(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    flate2::read::ZlibDecoder::new(d).read_to_end(&mut o).map_err(|e| e.to_string())?;
    Ok(o)
}

/// Streams with compressed meshes replaced by their contents, so that two
/// encodings of the same mesh compare equal.
pub fn normalise(s: &Streams) -> Streams {
    s.iter()
        .map(|(k, v)| {
            if k.contains("/GameItem") && v.len() > 4 && v[..4] == 19u32.to_le_bytes() {
                if let Ok(w) = walk(&v[4..]) {
                    let mut o = v[..4].to_vec();
                    for (t, d) in w {
                        let d = match t.as_str() {
                            "M3CX" | "M3CI" | "M3AX" => unzlib(&d).unwrap_or(d),
                            "M3CY" | "M3CJ" | "M3AY" => vec![0; 4],
                            _ => d,
                        };
                        o.extend_from_slice(&(d.len() as u32 + 4).to_le_bytes());
                        o.extend_from_slice(&tag4(&t));
                        o.extend(d);
                    }
                    return (k.clone(), o);
                }
            }
            if k.contains("/Image") && v.windows(4).any(|w| w == b"BITS") {
                if let Ok(w) = walk(v) {
                    let mut o = vec![];
                    for (t, d) in w {
                        let d = if t == "BITS" { crate::lzwref::decode(&d).unwrap_or(d) } else { d };
                        o.extend_from_slice(&(d.len() as u32 + 4).to_le_bytes());
                        o.extend_from_slice(&tag4(&t));
                        o.extend(d);
                    }
                    return (k.clone(), o);
                }
            }
            (k.clone(), v.clone())
        })
        .collect()
}

pub fn streams_hash(s: &Streams) -> u64 {
    s.iter().fold(7u64, |h, (k, v)| crate::tape::mix(h ^ hash_bytes(k.as_bytes()) ^ crate::tape::mix(hash_bytes(v))))
}

// ---- schema ---------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Bool,
    U32,
    I32,
    F32,
    Str,
    WStr,
    Color,
    V2,
    V3,
    V3u,
    Enum(u32, u32),
    Q8,
    Font,
    Marker,
    Points,
    Mesh,
    Anim,
}
#[derive(Clone, Debug)]
pub struct Field {
    pub tag: &'static str,
    pub kind: Kind,
    pub opt: bool,
    pub key: &'static str,
}
pub struct Schema {
    pub items: Vec<(u32, &'static str, Vec<Field>)>,
    pub dragpoint: Vec<Field>,
    pub gamedata: Vec<Field>,
}
pub fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(|| {
        let mut items = vec![];
        let mut m: HashMap<&str, Vec<Field>> = HashMap::new();
        let mut cur: &'static str = "";
        for l in include_str!("schema.txt").lines() {
            let p: Vec<&'static str> = l.split_whitespace().collect();
            match p.as_slice() {
                [] => {}
                ["item", n, name] => {
                    cur = name;
                    items.push((n.parse::<u32>().unwrap(), *name));
                }
                ["sub", name] => cur = name,
                ["gamedata"] => cur = "gamedata",
                [tag, kind, key] => {
                    let opt = kind.ends_with('?');
                    let k = kind.trim_end_matches('?');
                    let kind = match k {
                        "bool" => Kind::Bool,
                        "u32" => Kind::U32,
                        "i32" => Kind::I32,
                        "f32" => Kind::F32,
                        "str" => Kind::Str,
                        "wstr" => Kind::WStr,
                        "color" => Kind::Color,
                        "v2" => Kind::V2,
                        "v3" => Kind::V3,
                        "v3u" => Kind::V3u,
                        "q8" => Kind::Q8,
                        "font" => Kind::Font,
                        "marker" => Kind::Marker,
                        "points" => Kind::Points,
                        "mesh" => Kind::Mesh,
                        "anim" => Kind::Anim,
                        e => {
                            let (a, b) = e.strip_prefix("enum:").unwrap_or_else(|| panic!("kind {e}")).split_once("..").unwrap();
                            Kind::Enum(a.parse().unwrap(), b.parse().unwrap())
                        }
                    };
                    m.entry(cur).or_default().push(Field { tag, kind, opt, key });
                }
                _ => panic!("bad schema line {l}"),
            }
        }
        Schema { items: items.into_iter().map(|(n, name)| (n, name, m.remove(name).unwrap())).collect(), dragpoint: m.remove("dragpoint").unwrap(), gamedata: m.remove("gamedata").unwrap() }
    })
}
pub fn type_name(ty: u32) -> &'static str {
    schema().items.iter().find(|x| x.0 == ty).map(|x| x.1).unwrap_or("?")
}
