//! Generators of whole tables at the level of the file format.

use crate::tape::Tape;
use crate::wire::*;

#[derive(Clone)]
pub struct Prof {
    /// only finite numbers
    pub finite: bool,
    /// numbers of the size a table has (for geometry)
    pub table_sized: bool,
    pub max_items: usize,
    pub max_res: usize,
    /// item types to choose from
    pub types: Vec<u32>,
    /// difficult names (separators, reserved, colliding)
    pub weird_names: bool,
    /// arbitrary bytes where a mesh, an image or a compressed stream is expected
    pub raw_blobs: bool,
    pub versions: Vec<u32>,
    /// probability (in 8ths) of optional records
    pub opt8: u64,
    /// unique, non-empty item names
    pub unique_names: bool,
    pub mesh_max: usize,
    pub images_decodable: bool,
}

pub const ALL_TYPES: [u32; 21] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 18, 19, 20, 21, 22, 23, 24];

impl Default for Prof {
    fn default() -> Self {
        Prof {
            finite: true,
            table_sized: false,
            max_items: 6,
            max_res: 3,
            types: ALL_TYPES.to_vec(),
            weird_names: true,
            raw_blobs: false,
            versions: vec![1072, 1080, 1081, 1090, 1074, 1060, 1030, 1031, 1010],
            opt8: 5,
            unique_names: false,
            mesh_max: 12,
            images_decodable: false,
        }
    }
}

pub fn gen_f32(t: &mut Tape, p: &Prof) -> u32 {
    if p.table_sized {
        return match t.below(8) {
            0 => 0f32,
            1 => 1.0,
            2..=5 => t.range(-20000, 20000) as f32 / 16.0,
            6 => t.range(0, 1000) as f32 / 1000.0,
            _ => -(t.range(0, 1000) as f32) / 1000.0,
        }
        .to_bits();
    }
    match t.below(16) {
        0 => 0,
        1 => 1f32.to_bits(),
        2 => (-0f32).to_bits(),
        3 => (t.range(-1000, 1000) as f32 / 8.0).to_bits(),
        4 => (t.range(0, 1000) as f32 / 1000.0).to_bits(),
        5 => 0.1f32.to_bits(),
        6 => *t.pick(&[1u32, 0x7f7fffff, 0xff7fffff, 0x00800000, 0x007fffff, 0x3f7fffff, 0x3f800001, 0x4b800001, 0x80000001]),
        7 if !p.finite => *t.pick(&[0x7fc00000u32, 0x7f800000, 0xff800000, 0xffc00000, 0x7fc00001, 0x7f800001, 0xffffffff]),
        8 => (t.range(-100000, 100000) as f32).to_bits(),
        _ => {
            let b = t.any() as u32;
            if f32::from_bits(b).is_finite() || !p.finite { b } else { b & 0x3fff_ffff }
        }
    }
}

const LATIN: &[char] = &['a', 'b', 'Z', '0', '9', ' ', '_', '-', '.', 'é', 'ß', 'ÿ', '/', '\\', ':', '"', '\'', '<', '&', '%', '\n', '\t', '\u{80}', '\u{9f}', '\u{1}', '~', '\u{a0}', 'Ñ', '\r', '#', '\u{7f}'];

pub fn gen_str(t: &mut Tape) -> String {
    match t.below(6) {
        0 => String::new(),
        1 => t.pick(&["image1", "Metal", "Playfield", "L_1", "dataBase1", "Standard (160kR, 6.0,3.0, 2)", "0", "null"]).to_string(),
        2 | 3 => {
            let n = t.usize(0, 12);
            (0..n).map(|_| *t.pick(LATIN)).collect()
        }
        4 => {
            let n = t.usize(1, 10);
            (0..n).map(|_| char::from_u32(t.range(1, 255) as u32).unwrap()).collect()
        }
        _ => {
            let n = t.usize(1, 300);
            (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
        }
    }
}

pub fn gen_wide(t: &mut Tape) -> String {
    match t.below(8) {
        0 => t.pick(&["日本語", "Ωmega", "😀smile", "Привет", "é", "ﬁ", "İ", "ẞ"]).to_string(),
        1 => {
            let n = t.usize(1, 6);
            (0..n)
                .map(|_| loop {
                    let c = t.range(1, 0xffff) as u32;
                    if let Some(c) = char::from_u32(c) {
                        return c;
                    }
                    return '?';
                })
                .collect()
        }
        _ => gen_str(t),
    }
}

pub const NASTY: &[&str] = &[
    "a", "A", "a/b", "a\\b", "a:b", "a b", "a_b", "a.b", "..", "../x", ".", "con", "CON", "nul.txt", "aux", "x__1", "x", "X", "x__2", "x__0", "/abs", "C:\\x", "é", "É", "e\u{301}", "a?", "a*", "a|", "tail ", "tail.", " lead", "", "json", "a.json", "gameitems", "index", "%41", "a\nb", "~", "-", "日本", "x_dedup1", "x_dedup2",
    "a_dedup1", "x_anim_1", "x-generated", "Wall", "ｘ", "İ", "ı", "ß", "SS", "LPT1", "com¹",
];

pub fn gen_name(t: &mut Tape, p: &Prof, i: usize, latin: bool) -> String {
    if p.unique_names {
        let base = if p.weird_names && t.chance(1, 3) { t.pick(NASTY).to_string() } else { t.pick(&["Wall", "Bumper", "Light", "L", "Target", "sw", "Ramp"]).to_string() };
        let s = format!("{base}{i}");
        return if latin { s.chars().filter(|c| (*c as u32) < 256).collect() } else { s };
    }
    let s = match t.below(6) {
        0 | 1 => format!("Part{i}"),
        2 | 3 if p.weird_names => t.pick(NASTY).to_string(),
        4 if p.weird_names => {
            if latin {
                gen_str(t)
            } else {
                gen_wide(t)
            }
        }
        _ => format!("P{}", t.below(4)),
    };
    if latin { s.chars().filter(|c| (*c as u32) < 256).collect() } else { s }
}

pub fn gen_color(t: &mut Tape) -> u32 {
    let c = t.any() as u32 & 0xffffff;
    match t.below(4) {
        0 => c | 0xff000000,
        1 => c | ((t.any() as u32) << 24),
        _ => c,
    }
}

pub fn gen_u32(t: &mut Tape) -> u32 {
    match t.below(5) {
        0 => 0,
        1 => 1,
        2 => t.below(20) as u32,
        3 => u32::MAX - t.below(3) as u32,
        _ => t.any() as u32,
    }
}

fn sane_val(t: &mut Tape, p: &Prof, f: &Field) -> Option<Val> {
    // geometry of a reasonable table
    if !p.table_sized {
        return None;
    }
    let v = |x: f32| Some(Val::F32(x.to_bits()));
    match f.tag {
        "VCEN" | "VPOS" | "VER1" | "VER2" => {
            let x = (t.range(0, 15000) as f32 / 16.0).to_bits();
            let y = (t.range(0, 33000) as f32 / 16.0).to_bits();
            Some(match f.kind {
                Kind::V2 => Val::V2([x, y]),
                Kind::V3 => Val::V3([x, y, (t.range(-50, 200) as f32).to_bits()]),
                _ => Val::V3u([x, y, (t.range(-50, 200) as f32).to_bits()]),
            })
        }
        "VSIZ" => Some(Val::V3([0; 3].map(|_: u32| (t.range(1, 800) as f32 / 8.0).to_bits()))),
        "RADI" | "BASR" | "ENDR" | "FLPR" | "FRMN" | "WDTH" | "HIGH" | "LGTH" | "HGTH" | "HISC" | "SCAX" | "SCAY" | "BMSC" | "WITI" | "RADX" | "RADY" | "WDBT" | "WDTP" | "FHGT" | "HPSL" | "RODD" | "RNGG" | "RNGD" | "RNGW" | "SPRD" | "SPRG" | "SPRL" | "SPRE" | "MEST" | "RCNT" | "RSPC" | "MSTP"
        | "RANG" => {
            if f.kind == Kind::F32 {
                v(t.range(8, 1600) as f32 / 16.0)
            } else {
                None
            }
        }
        "POSZ" | "HTBT" | "HTTP" | "HTHI" | "FHEI" | "HGHT" | "BHHI" => v(t.range(0, 1600) as f32 / 16.0),
        "ROTA" | "ROTZ" | "FROX" | "FROY" | "FROZ" | "ANGS" | "ANGE" | "ORIN" | "KORI" | "ROTX" | "ROTY" => v(t.range(-720, 720) as f32 / 2.0),
        "RTHK" | "RHGT" | "RWDT" => Some(Val::U32(t.range(1, 50) as u32)),
        "RTHF" | "RHGF" | "RWDF" => v(t.range(8, 800) as f32 / 16.0),
        "WDTP_" => None,
        "SIDS" => Some(Val::U32(t.range(3, 16) as u32)),
        _ => None,
    }
}

pub fn gen_val(t: &mut Tape, p: &Prof, f: &Field) -> Val {
    if let Some(v) = sane_val(t, p, f) {
        return v;
    }
    match f.kind {
        Kind::Bool => Val::Bool(t.bool()),
        Kind::U32 => Val::U32(gen_u32(t)),
        Kind::I32 if p.table_sized => Val::I32(t.range(1, 40) as i32),
        Kind::I32 => Val::I32(gen_u32(t) as i32),
        Kind::F32 => Val::F32(gen_f32(t, p)),
        Kind::Str => Val::Str(gen_str(t)),
        Kind::WStr => Val::WStr(gen_wide(t)),
        Kind::Color => Val::Color(gen_color(t)),
        Kind::V2 => Val::V2([gen_f32(t, p), gen_f32(t, p)]),
        Kind::V3 => Val::V3([gen_f32(t, p), gen_f32(t, p), gen_f32(t, p)]),
        Kind::V3u => Val::V3u([gen_f32(t, p), gen_f32(t, p), gen_f32(t, p)]),
        // Visual Pinball keeps whatever number an old file has here
        Kind::Enum(..) if f.tag == "GATY" => Val::Enum(match t.below(12) {
            10 => 0,
            11 => *[5u32, 0x1234_5678, u32::MAX].get(p.max_items % 3).unwrap(),
            n => n as u32 % 4 + 1,
        }),
        Kind::Enum(a, b) => Val::Enum(t.range(a as i64, b as i64) as u32),
        Kind::Q8 => Val::Q8(t.below(256) as u32),
        Kind::Font => Val::Font(FontV { charset: *t.pick(&[0u16, 1, 2, 255, 134, 77]), style: t.below(32) as u8, weight: t.any() as u16, size: gen_u32(t), name: gen_str(t).chars().take(255).collect() }),
        Kind::Marker => Val::Marker,
        Kind::Points | Kind::Mesh | Kind::Anim => unreachable!(),
    }
}

pub fn gen_fields(t: &mut Tape, p: &Prof, fs: &'static [Field]) -> Vec<Rec> {
    let mut out = vec![];
    let style = t.below(8); // some cases with all / no optional records
    for f in fs {
        let take = !f.opt
            || match style {
                0 => false,
                1 => true,
                _ => t.chance(p.opt8, 8),
            };
        match f.kind {
            Kind::Points => {
                let n = match t.below(6) {
                    0 => 0,
                    1..=4 => t.usize(3, 7),
                    _ => t.usize(0, 40),
                };
                for _ in 0..n {
                    let d = gen_fields(t, p, &schema().dragpoint);
                    out.push(Rec { tag: "DPNT", key: f.key, val: Val::Sub(d), optional: false });
                }
            }
            Kind::Mesh => gen_mesh_recs(t, p, &mut out),
            Kind::Anim => {}
            _ if take => {
                let v = gen_val(t, p, f);
                out.push(Rec { tag: f.tag, key: f.key, val: v, optional: f.opt });
            }
            _ => {}
        }
    }
    out
}

#[derive(Clone, Debug, Default)]
pub struct MeshM {
    pub verts: Vec<[u32; 8]>,
    pub idx: Vec<u32>,
    pub frames: Vec<Vec<[u32; 6]>>,
}
impl MeshM {
    pub fn vbytes(&self) -> Vec<u8> {
        self.verts.iter().flatten().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn ibytes(&self) -> Vec<u8> {
        if self.verts.len() > 65535 { self.idx.iter().flat_map(|x| x.to_le_bytes()).collect() } else { self.idx.iter().flat_map(|x| (*x as u16).to_le_bytes()).collect() }
    }
    pub fn recs(&self) -> Vec<Rec> {
        let cv = zlib(&self.vbytes());
        let ci = zlib(&self.ibytes());
        let mut o = vec![
            r("M3VN", "-", Val::U32(self.verts.len() as u32)),
            r("M3CY", "-", Val::U32(cv.len() as u32)),
            r("M3CX", "-", Val::Bytes(cv)),
            r("M3FN", "-", Val::U32(self.idx.len() as u32)),
            r("M3CJ", "-", Val::U32(ci.len() as u32)),
            r("M3CI", "-", Val::Bytes(ci)),
        ];
        for f in &self.frames {
            let b: Vec<u8> = f.iter().flatten().flat_map(|x| x.to_le_bytes()).collect();
            let c = zlib(&b);
            o.push(r("M3AY", "-", Val::U32(c.len() as u32)));
            o.push(r("M3AX", "-", Val::Bytes(c)));
        }
        o
    }
}
pub fn gen_mesh(t: &mut Tape, p: &Prof, nv: usize, nf: usize) -> MeshM {
    let mut m = MeshM::default();
    for _ in 0..nv {
        let mut v = [0u32; 8];
        for x in v.iter_mut() {
            *x = gen_f32(t, p);
        }
        if p.table_sized {
            // unit normal, texture in range
            let (a, b) = (t.range(0, 360) as f32, t.range(-90, 90) as f32);
            let (a, b) = (a.to_radians(), b.to_radians());
            v[3] = (a.cos() * b.cos()).to_bits();
            v[4] = (a.sin() * b.cos()).to_bits();
            v[5] = b.sin().to_bits();
            v[6] = (t.range(0, 100) as f32 / 100.0).to_bits();
            v[7] = (t.range(0, 100) as f32 / 100.0).to_bits();
        }
        m.verts.push(v);
    }
    if nv > 0 {
        for _ in 0..nf * 3 {
            m.idx.push(t.below(nv as u64) as u32);
        }
    }
    m
}
fn gen_mesh_recs(t: &mut Tape, p: &Prof, out: &mut Vec<Rec>) {
    if p.raw_blobs && t.chance(1, 3) {
        // arbitrary contents, each record optional
        for tag in ["M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI"] {
            if t.bool() {
                let v = if tag.ends_with("X") || tag.ends_with("CI") {
                    let n = t.usize(0, 40);
                    Val::Bytes(t.bytes(n))
                } else {
                    Val::U32(t.any() as u32)
                };
                out.push(r(tag, "-", v));
            }
        }
        for _ in 0..t.usize(0, 3) {
            let n = t.usize(0, 20);
            let b = t.bytes(n);
            out.push(r("M3AY", "-", Val::U32(t.any() as u32)));
            out.push(r("M3AX", "-", Val::Bytes(b)));
        }
        return;
    }
    if t.chance(2, 3) {
        let nv = t.usize(1, p.mesh_max);
        let nf = t.usize(if p.table_sized { 1 } else { 0 }, p.mesh_max);
        let mut m = gen_mesh(t, p, nv, nf);
        if t.chance(1, 4) {
            for _ in 0..t.usize(1, 3) {
                let f = (0..nv)
                    .map(|_| {
                        let mut v = [0u32; 6];
                        for x in v.iter_mut() {
                            *x = gen_f32(t, p);
                        }
                        v
                    })
                    .collect();
                m.frames.push(f);
            }
        }
        out.extend(m.recs());
    }
}

pub fn gen_item(t: &mut Tape, p: &Prof, i: usize) -> Item {
    let ty = *t.pick(&p.types);
    gen_item_of(t, p, i, ty)
}
pub fn gen_item_of(t: &mut Tape, p: &Prof, i: usize, ty: u32) -> Item {
    let fs = &schema().items.iter().find(|x| x.0 == ty).unwrap().2;
    let mut recs = gen_fields(t, p, fs);
    let name = gen_name(t, p, i, false);
    for x in recs.iter_mut() {
        if x.tag == "NAME" {
            x.val = Val::WStr(name.clone());
        }
    }
    if ty == 19 {
        // bounds come in pairs
        let a = recs.iter().any(|x| x.tag == "BMIN");
        let b = recs.iter().any(|x| x.tag == "BMAX");
        if a != b {
            recs.retain(|x| x.tag != "BMIN" && x.tag != "BMAX");
        }
    }
    Item { ty, recs }
}

pub fn gen_material(t: &mut Tape, p: &Prof) -> Vec<Rec> {
    let ty = t.range(-1, 1);
    let name = if t.chance(1, 4) { gen_str(t) } else { format!("Mat{}", t.below(5)) };
    let mut v = vec![r("TYPE", "type", Val::I32(ty as i32)), r("NAME", "name", Val::Str(name))];
    for (tag, key) in [("WLIG", "wrap_lighting"), ("ROUG", "roughness"), ("GIML", "glossy_image_lerp"), ("THCK", "thickness"), ("EDGE", "edge"), ("EALP", "edge_alpha"), ("OPAC", "opacity")] {
        v.push(r(tag, key, Val::F32(gen_f32(t, p))));
    }
    for (tag, key) in [("BASE", "base_color"), ("GLOS", "glossy_color"), ("COAT", "clearcoat_color"), ("RTNT", "refraction_tint")] {
        v.push(r(tag, key, Val::Color(gen_color(t))));
    }
    v.push(r("EOPA", "opacity_active", Val::Bool(t.bool())));
    for (tag, key) in [("ELAS", "elasticity"), ("ELFO", "elasticity_falloff"), ("FRIC", "friction"), ("SCAT", "scatter_angle")] {
        v.push(r(tag, key, Val::F32(gen_f32(t, p))));
    }
    v
}
pub fn gen_probe(t: &mut Tape, p: &Prof) -> Val {
    let mut v = vec![r("TYPE", "type", Val::Enum(t.below(2) as u32)), r("NAME", "name", Val::Str(gen_str(t))), r("RBAS", "roughness", Val::U32(gen_u32(t)))];
    if t.bool() {
        v.push(r("RCLE", "roughness_clear", Val::U32(gen_u32(t))));
    }
    v.push(r("RPLA", "reflection_plane", Val::V4([gen_f32(t, p), gen_f32(t, p), gen_f32(t, p), gen_f32(t, p)])));
    v.push(r("RMOD", "reflection_mode", Val::Enum(t.below(7) as u32)));
    if t.bool() {
        v.push(r("RLMP", "disable_light_reflection", Val::Bool(t.bool())));
    }
    let n = t.small_len(40);
    let trailing = t.bytes(n);
    Val::Nested(v, trailing)
}

pub fn name32(t: &mut Tape) -> Vec<u8> {
    let s: String = gen_str(t);
    let mut b = latin1(&s);
    b.truncate(31);
    b.resize(32, 0);
    b
}
pub fn gen_save_mat(t: &mut Tape, p: &Prof) -> Vec<u8> {
    let mut b = name32(t);
    for _ in 0..3 {
        b.extend_from_slice(&gen_color(t).to_le_bytes());
    }
    b.extend_from_slice(&gen_f32(t, p).to_le_bytes());
    b.extend_from_slice(&[t.below(2) as u8, 0, 0, 0]);
    b.extend_from_slice(&gen_f32(t, p).to_le_bytes());
    b.extend_from_slice(&[t.any() as u8, 0, 0, 0]);
    b.extend_from_slice(&gen_f32(t, p).to_le_bytes());
    b.extend_from_slice(&[t.any() as u8, 0, 0, 0]);
    b.extend_from_slice(&gen_f32(t, p).to_le_bytes());
    b.extend_from_slice(&[t.any() as u8, 0, 0, 0]);
    b
}
pub fn gen_save_phys(t: &mut Tape, p: &Prof) -> Vec<u8> {
    let mut b = name32(t);
    for _ in 0..4 {
        b.extend_from_slice(&gen_f32(t, p).to_le_bytes());
    }
    b
}

pub fn gen_script(t: &mut Tape) -> Vec<u8> {
    let eol = *t.pick(&["\r\n", "\n", "\r"]);
    let lines = ["Option Explicit", "Sub Table1_Init()", "' comment", "End Sub", "  x = 1", "", "\tDim a", "' caf\u{e9}", "' 日本", "ENDB", "CODE"];
    let n = t.small_len(30);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(eol);
        }
        s.push_str(t.pick::<&str>(&lines));
    }
    if n > 0 && t.bool() {
        s.push_str(eol);
    }
    let mut b = s.into_bytes();
    match t.below(5) {
        0 => {
            // legacy single byte
            b.extend_from_slice(b"' caf\xe9 \x80\x9f\xff");
        }
        1 => {
            let mut x = b"\xef\xbb\xbf".to_vec();
            x.extend(b);
            b = x;
        }
        _ => {}
    }
    b
}

pub fn gen_gamedata(t: &mut Tape, p: &Prof, version: u32) -> Vec<Rec> {
    let mut g = gen_fields(t, p, &schema().gamedata);
    for x in g.iter_mut() {
        if x.tag.starts_with("VSM") {
            x.val = Val::U32(t.below(3) as u32);
        }
        if x.tag == "TMAP" {
            x.val = Val::U32(t.below(5) as u32);
        }
        if p.table_sized {
            let v = match x.tag {
                "LEFT" | "TOPX" => 0.0,
                "RGHT" => t.range(800, 1200) as f32,
                "BOTM" => t.range(1800, 2400) as f32,
                "GLAS" => 400.0,
                "FOVX" | "FOVF" | "FOFS" => t.range(20, 60) as f32,
                "INCL" | "INCF" | "INFS" => t.range(0, 70) as f32,
                "LAYB" | "LAYF" | "LAFS" => t.range(0, 90) as f32,
                "SCLX" | "SCLY" | "SCLZ" | "SCFX" | "SCFY" | "SCFZ" | "SCXS" | "SCYS" | "SCZS" => 1.0,
                _ => continue,
            };
            x.val = Val::F32(v.to_bits());
        }
    }
    // only one EFSS, where this version has it
    let clmo = g.iter().any(|x| x.tag == "CLMO");
    let late = version < 1080 || (version == 1080 && (clmo || t.bool()));
    let mut n = 0;
    let keep_any = g.iter().any(|x| x.tag == "EFSS");
    let val = Val::Bool(t.bool());
    g.retain(|x| x.tag != "EFSS");
    if keep_any {
        let after = if late { "VSM1" } else { "CLMO" };
        let mut at = None;
        for (i, x) in g.iter().enumerate() {
            // position in schema order
            if late && x.tag == "ROTF" {
                at = Some(i);
            }
            if !late && x.tag == "ROTA" && at.is_none() {
                at = Some(i);
            }
        }
        let mut at = at.unwrap();
        if !late && g[at - 1].tag == "VSM0" {
            at -= 1;
        }
        let _ = after;
        g.insert(at, Rec { tag: "EFSS", key: "bg_enable_fss", val, optional: true });
        n += 1;
    }
    let _ = n;
    let nold = t.small_len(6).min(6);
    let nmat = if t.chance(3, 4) { Some(t.small_len(5).min(5)) } else { None };
    let count = match nmat {
        Some(n) if t.chance(3, 4) => n,
        _ => nold,
    };
    g.push(r("MASI", "materials_size", Val::U32(count as u32)));
    let mut mate = vec![];
    for _ in 0..count {
        mate.extend(gen_save_mat(t, p));
    }
    g.push(r("MATE", "", Val::Bytes(mate)));
    if t.chance(3, 4) {
        let mut ph = vec![];
        for _ in 0..count {
            ph.extend(gen_save_phys(t, p));
        }
        g.push(r("PHMA", "", Val::Bytes(ph)));
    }
    if let Some(n) = nmat {
        for _ in 0..n {
            let m = gen_material(t, p);
            g.push(r("MATR", "", Val::Nested(m, vec![])));
        }
    }
    if t.chance(1, 2) {
        for _ in 0..t.usize(1, 3) {
            let v = gen_probe(t, p);
            g.push(r("RPRB", "", v));
        }
    }
    for tag in ["SEDT", "SSND", "SIMG", "SFNT", "SCOL"] {
        g.push(r(tag, "", Val::U32(0)));
    }
    let nm = gen_wide(t);
    g.push(r("NAME", "name", Val::WStr(nm)));
    let mut cc = vec![];
    for _ in 0..16 {
        cc.extend_from_slice(&gen_color(t).to_le_bytes());
    }
    g.push(r("CCUS", "custom_colors", Val::Bytes(cc)));
    if t.chance(1, 3) {
        let n = t.usize(0, 40);
        let d = t.bytes(n);
        g.push(r("SECB", "protection_data", Val::Bytes(d)));
    }
    let s = gen_script(t);
    g.push(r("CODE", "", Val::Code(s)));
    if t.chance(1, 2) {
        let n = gen_u32(t);
        g.push(r("TLCK", "locked", Val::U32(n)));
    }
    g
}

pub fn gen_collection(t: &mut Tape, p: &Prof, i: usize) -> Vec<Rec> {
    let name = if !p.unique_names && t.chance(1, 12) { String::new() } else { gen_name(t, p, i, false) };
    let mut v = vec![r("NAME", "name", Val::WStr(name))];
    for _ in 0..t.small_len(20) {
        v.push(r("ITEM", "items", Val::WStr(gen_wide(t))));
    }
    v.push(r("EVNT", "fire_events", Val::Bool(t.bool())));
    v.push(r("SSNG", "stop_single_events", Val::Bool(t.bool())));
    v.push(r("GREL", "group_elements", Val::Bool(t.bool())));
    v
}

pub fn lzw_like(t: &mut Tape) -> Vec<u8> {
    let n = t.small_len(200);
    let mut b = t.bytes(n);
    if t.chance(1, 6) {
        // bytes that look like the tag of the next record
        let at = t.usize(0, b.len());
        b.splice(at..at, *b"\xff\xee\xdd\xccALTV");
        let at = t.usize(0, b.len());
        b.truncate(at.max(4));
    }
    b
}

pub fn encode_image(t: &mut Tape, fmt: image::ImageFormat) -> (u32, u32, Vec<u8>) {
    let (w, h) = (t.usize(1, 9) as u32, t.usize(1, 9) as u32);
    let mut out = std::io::Cursor::new(vec![]);
    if fmt == image::ImageFormat::Jpeg {
        let img = image::RgbImage::from_fn(w, h, |x, y| image::Rgb([(x * 31) as u8, (y * 17) as u8, t.any() as u8]));
        img.write_to(&mut out, fmt).unwrap();
    } else if fmt == image::ImageFormat::Hdr || fmt == image::ImageFormat::OpenExr {
        let img = image::Rgb32FImage::from_fn(w, h, |x, y| image::Rgb([x as f32, y as f32, t.below(10) as f32]));
        image::DynamicImage::ImageRgb32F(img).write_to(&mut out, fmt).unwrap();
    } else {
        let img = image::RgbaImage::from_fn(w, h, |x, y| image::Rgba([(x * 31) as u8, (y * 17) as u8, t.any() as u8, t.any() as u8]));
        img.write_to(&mut out, fmt).unwrap();
    }
    (w, h, out.into_inner())
}

pub fn gen_image(t: &mut Tape, p: &Prof, i: usize) -> Vec<Rec> {
    let name = gen_name(t, p, i, true);
    let ext = *t.pick(&["png", "jpg", "PNG", "webp", "hdr", "exr", "bmp", "jpeg", "tga", "gif"]);
    let base = if t.chance(1, 6) { gen_str(t) } else { format!("img{i}") };
    let kind = t.below(6);
    let ext = if kind == 5 { *t.pick(&["bmp", "BMP", "bmp"]) } else { ext };
    let path = match t.below(4) {
        0 => format!("C:\\tables\\{base}.{ext}"),
        1 => format!("/home/u/{base}.{ext}"),
        _ => format!("{base}.{ext}"),
    };
    let mut v = vec![r("NAME", "name", Val::Str(name.clone()))];
    let inme = t.chance(1, 4);
    if inme {
        v.push(r("INME", "internal_name", Val::Str(gen_str(t))));
    }
    v.push(r("PATH", "path", Val::Str(path.clone())));
    let (mut w, mut h) = (t.below(5000) as u32, t.below(5000) as u32);
    let mut body = vec![];
    if kind == 4 {
        body.push(r("LINK", "link", Val::U32(1)));
    } else if kind == 5 {
        if p.raw_blobs {
            body.push(r("BITS", "", Val::NoSize(lzw_like(t))));
        } else {
            w = t.usize(1, 12) as u32;
            h = t.usize(1, 12) as u32;
            let px = gen_pixels(t, w, h);
            body.push(r("BITS", "", Val::NoSize(lzw_encode(&px))));
        }
    } else {
        let fmt = match ext.to_ascii_lowercase().as_str() {
            "png" => image::ImageFormat::Png,
            "jpg" | "jpeg" => image::ImageFormat::Jpeg,
            "webp" => image::ImageFormat::WebP,
            "hdr" => image::ImageFormat::Hdr,
            "exr" => image::ImageFormat::OpenExr,
            "tga" => image::ImageFormat::Tga,
            "gif" => image::ImageFormat::Gif,
            _ => image::ImageFormat::Bmp,
        };
        let data = if (p.images_decodable || t.chance(1, 3)) && !p.raw_blobs {
            let (a, b, d) = encode_image(t, fmt);
            if p.images_decodable || t.bool() {
                w = a;
                h = b;
            }
            d
        } else {
            let n = t.small_len(120);
            t.bytes(n)
        };
        let (jn, jp) = if t.chance(1, 5) { (gen_str(t), gen_str(t)) } else { (name.clone(), path.clone()) };
        let mut j = vec![r("NAME", "jpeg_name", Val::Str(jn))];
        if t.chance(1, 6) {
            j.push(r("INME", "jpeg_internal_name", Val::Str(gen_str(t))));
        }
        j.push(r("PATH", "jpeg_path", Val::Str(jp)));
        j.push(r("SIZE", "", Val::U32(data.len() as u32)));
        j.push(r("DATA", "", Val::Bytes(data)));
        body.push(r("JPEG", "", Val::Jpeg(j)));
    }
    v.push(r("WDTH", "width", Val::U32(w)));
    v.push(r("HGHT", "height", Val::U32(h)));
    v.extend(body);
    let altv = if t.bool() { (-1f32).to_bits() } else { gen_f32(t, p) };
    v.push(r("ALTV", "alpha_test_value", Val::F32(altv)));
    if t.chance(1, 3) {
        v.push(r("MD5H", "md5_hash", Val::Bytes(t.bytes(16))));
    }
    if t.chance(1, 3) {
        v.push(r("OPAQ", "is_opaque", Val::Bool(t.bool())));
    }
    if t.chance(1, 3) {
        v.push(r("SIGN", "is_signed", Val::Bool(t.bool())));
    }
    v
}
pub fn gen_pixels(t: &mut Tape, w: u32, h: u32) -> Vec<u8> {
    let n = (w * h * 4) as usize;
    match t.below(4) {
        0 => vec![t.any() as u8; n],
        1 => {
            let k = t.usize(1, 9);
            let pat = t.bytes(k);
            (0..n).map(|i| pat[i % k]).collect()
        }
        2 => (0..n).map(|i| if i % 4 == 3 { 255 } else { (i / 4) as u8 }).collect(),
        _ => t.bytes(n),
    }
}

/// An independent GIF-style LZW encoder (8 bit, codes up to 12 bits, one-byte
/// sub-blocks are not used by this variant of the format).
pub fn lzw_encode(px: &[u8]) -> Vec<u8> {
    crate::lzwref::encode(px)
}

pub fn gen_sound(t: &mut Tape, p: &Prof, i: usize) -> Sound {
    let name = gen_name(t, p, i, true);
    let base = format!("snd{}", t.below(3));
    let path = match t.below(10) {
        0..=4 => format!("C:\\s\\{base}.wav"),
        5 => format!("{base}.WAV"),
        6 => base.clone(),
        7 => format!("{base}.mp3"),
        8 => format!("/x/{base}.ogg"),
        _ => format!("{base}.{}", t.pick(&["flac", "Mp3", "bin", "wave"])),
    };
    let ch = *t.pick(&[1u16, 2, 4]);
    let bits = *t.pick(&[8u16, 16, 24, 32]);
    let rate = *t.pick(&[8000u32, 22050, 44100, 48000, 96000, 1]);
    let align = ch * bits / 8;
    let fmt = if t.chance(1, 3) {
        let tag = *t.pick(&[1u16, 3, 2, 17, 6, 7, 85, 0xfffe, 0]);
        let cb = if tag == 1 && !p.raw_blobs { 0 } else { *t.pick(&[0u16, 2, 32, 22, 7, 65535]) };
        (tag, t.any() as u16, t.any() as u32, t.any() as u32, t.any() as u16, t.any() as u16, cb)
    } else {
        (1, ch, rate, rate * align as u32, align, bits, 0)
    };
    let n = t.small_len(100);
    let data = t.bytes(n);
    Sound { name: name.clone(), path, internal: if t.bool() { name.to_lowercase().chars().filter(|c| (*c as u32) < 256 && *c != '\0').collect() } else { gen_str(t) }, fmt, data, target: t.below(2) as u8, volume: gen_u32(t), balance: gen_u32(t), fade: gen_u32(t) }
}
pub fn gen_font(t: &mut Tape, p: &Prof, i: usize) -> FontF {
    let name = gen_name(t, p, i, true);
    let ext = *t.pick(&["ttf", "TTF", "otf"]);
    let n = t.small_len(80);
    FontF { name, path: format!("{}{}.{ext}", t.pick(&["", "C:\\fonts\\", "/f/"]), t.below(3)), data: t.bytes(n) }
}

pub fn gen_info(t: &mut Tape) -> (Vec<(String, Vec<u8>)>, Vec<String>) {
    let mut v = vec![];
    let style = t.below(6);
    for n in FIXED_INFO {
        if style == 0 || (style != 1 && t.chance(1, 3)) {
            continue;
        }
        let b = if n == "Screenshot" {
            let n = t.small_len(300);
            t.bytes(n)
        } else {
            match t.below(3) {
                0 => vec![],
                1 => utf16(&gen_wide(t)),
                _ => utf16("Some text"),
            }
        };
        v.push((n.to_string(), b));
    }
    let mut names: Vec<String> = vec![];
    for _ in 0..t.small_len(8).min(8) {
        let s = match t.below(4) {
            0 => t.pick(&["Name with space", "x.y", "Ünï", "a", "TableNameX", "ExactlyThirtyOneCharactersLong_"]).to_string(),
            1 => gen_str(t).chars().filter(|c| !"/\\:!\0".contains(*c)).take(31).collect(),
            _ => format!("cust{}", t.below(9)),
        };
        let u = s.to_uppercase();
        if s.is_empty() || s == "." || s == ".." || s.trim() != s || names.iter().any(|x| x.to_uppercase() == u) || FIXED_INFO.iter().any(|x| x.to_uppercase() == u) {
            continue;
        }
        names.push(s);
    }
    let mut cust = vec![];
    for n in &names {
        if t.chance(4, 5) {
            v.push((n.clone(), utf16(&gen_wide(t))));
        }
        if t.chance(4, 5) {
            cust.push(n.clone());
        }
    }
    if t.chance(1, 6) {
        // the list may name one twice, or one of the usual fields
        let k = match t.below(4) {
            0 => t.pick(&FIXED_INFO).to_string(),
            1 if !cust.is_empty() => t.pick(&cust).to_ascii_uppercase(),
            _ if !cust.is_empty() => t.pick(&cust).clone(),
            _ => "not there".to_string(),
        };
        cust.push(k);
    }
    let pm = t.perm(cust.len());
    (v, pm.into_iter().map(|i| cust[i].clone()).collect())
}

pub fn gen_table(t: &mut Tape, p: &Prof) -> Table {
    let version = *t.pick(&p.versions);
    let (info, cust) = gen_info(t);
    let gd = gen_gamedata(t, p, version);
    let many = t.chance(1, 12);
    let ni = if many { t.usize(9, 9 + 2 * p.max_items) } else { t.usize(0, p.max_items) };
    let items = (0..ni).map(|i| gen_item(t, p, i)).collect();
    let n = |t: &mut Tape| if many { t.usize(0, 13) } else { t.usize(0, p.max_res) };
    let k = n(t);
    let images = (0..k).map(|i| gen_image(t, p, i)).collect();
    let k = n(t);
    let sounds = (0..k).map(|i| gen_sound(t, p, i)).collect();
    let k = n(t);
    let fonts = (0..k).map(|i| gen_font(t, p, i)).collect();
    let k = n(t);
    let colls = (0..k).map(|i| gen_collection(t, p, i)).collect();
    let mut tb = Table { version, info, cust, gd, items, images, sounds, fonts, colls };
    tb.fix_counts();
    tb
}

/// min(trunc(x * 2^bits), 2^bits - 1), as Visual Pinball quantises
pub fn quant(bits: u32, x: f32) -> u8 {
    let v = (x * (1u32 << bits) as f32) as u32;
    v.min((1 << bits) - 1) as u8
}

/// The legacy material tables that belong to a list of modern materials.
pub fn derive_legacy(mats: &[Vec<Rec>]) -> (Vec<u8>, Vec<u8>) {
    let (mut a, mut b) = (vec![], vec![]);
    for m in mats {
        let get = |t: &str| m.iter().find(|x| x.tag == t).map(|x| x.val.clone()).unwrap();
        let f = |t: &str| match get(t) {
            Val::F32(b) => f32::from_bits(b),
            _ => unreachable!(),
        };
        let c = |t: &str| match get(t) {
            Val::Color(c) => c,
            _ => unreachable!(),
        };
        let Val::Str(name) = get("NAME") else { unreachable!() };
        let mut n = latin1(&name);
        n.truncate(31);
        n.resize(32, 0);
        a.extend_from_slice(&n);
        for t in ["BASE", "GLOS", "COAT"] {
            a.extend_from_slice(&c(t).to_le_bytes());
        }
        let word = |a: &mut Vec<u8>, x: u8| a.extend_from_slice(&[x, 0, 0, 0]);
        let num = |a: &mut Vec<u8>, t: &str| a.extend_from_slice(&f(t).to_bits().to_le_bytes());
        num(&mut a, "WLIG");
        word(&mut a, (get("TYPE") == Val::I32(1)) as u8);
        num(&mut a, "ROUG");
        word(&mut a, 255 - quant(8, f("GIML").clamp(0.0, 1.0)));
        num(&mut a, "EDGE");
        word(&mut a, quant(8, f("THCK").clamp(0.05, 1.0)));
        num(&mut a, "OPAC");
        word(&mut a, (get("EOPA") == Val::Bool(true)) as u8 | quant(7, f("EALP").clamp(0.0, 1.0)) << 1);
        b.extend_from_slice(&n);
        for t in ["ELAS", "ELFO", "FRIC", "SCAT"] {
            num(&mut b, t);
        }
    }
    (a, b)
}

/// Bring the legacy material tables in line with the modern materials, if there are any.
pub fn derive_legacy_tables(tb: &mut Table) {
    let mats: Vec<Vec<Rec>> = tb
        .gd
        .iter()
        .filter(|x| x.tag == "MATR")
        .map(|x| match &x.val {
            Val::Nested(m, _) => m.clone(),
            _ => unreachable!(),
        })
        .collect();
    if mats.is_empty() {
        return;
    }
    let (a, b) = derive_legacy(&mats);
    tb.gd_set("MASI", Val::U32(mats.len() as u32));
    tb.gd_set("MATE", Val::Bytes(a));
    if tb.gd_get("PHMA").is_none() {
        let i = tb.gd.iter().position(|x| x.tag == "MATE").unwrap();
        tb.gd.insert(i + 1, r("PHMA", "", Val::Bytes(vec![])));
    }
    tb.gd_set("PHMA", Val::Bytes(b));
}
