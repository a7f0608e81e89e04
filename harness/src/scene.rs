//! Tables with ordinary values for whole-table exports.

use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;

fn unit(t: &mut Tape) -> f32 {
    match t.below(5) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.999,
        _ => t.range(0, 1000) as f32 / 1000.0,
    }
}

/// A table of ordinary size whose lights, materials and views have ordinary values.
pub fn base(t: &mut Tape, items: Vec<Item>) -> Table {
    let mut tb = gen_table(t, &Prof { max_items: 0, max_res: 0, table_sized: true, ..Prof::default() });
    tb.items = items;
    for (tag, lo, hi) in [("LZHI", 100, 3000), ("LZRA", 100, 40000), ("LIES", 0, 4000000), ("ENES", 0, 20), ("GLAB", 0, 300)] {
        if tb.gd_get(tag).is_some() {
            let v = t.range(lo, hi) as f32;
            tb.gd_set(tag, Val::F32(v.to_bits()));
        }
    }
    if tb.gd_get("ARAC").is_some() {
        let v = t.below(11) as u32;
        tb.gd_set("ARAC", Val::U32(v));
    }
    for tag in ["GLES", "PLST"] {
        if matches!(tb.gd_get(tag), Some(Val::F32(_))) {
            let v = unit(t);
            tb.gd_set(tag, Val::F32(v.to_bits()));
        }
    }
    for x in tb.gd.iter_mut() {
        match (x.tag, &mut x.val) {
            ("MATR", Val::Nested(m, _)) => {
                for y in m.iter_mut() {
                    if matches!(y.tag, "ROUG" | "OPAC" | "EDGE" | "WLIG" | "THCK" | "EALP" | "GIML") {
                        y.val = Val::F32(unit(t).to_bits());
                    }
                }
            }
            ("MATE", Val::Bytes(b)) => {
                for m in b.chunks_exact_mut(76) {
                    for at in [44, 52, 60, 68] {
                        m[at..at + 4].copy_from_slice(&unit(t).to_le_bytes());
                    }
                }
            }
            _ => {}
        }
    }
    tb.fix_counts();
    derive_legacy_tables(&mut tb);
    tb
}

/// Ordinary values for what is not geometry.
pub fn tame(t: &mut Tape, it: &mut Item) {
    for x in it.recs.iter_mut() {
        if matches!(x.tag, "DILB" | "DILI" | "DILT") {
            if let Val::F32(_) = x.val {
                x.val = Val::F32(unit(t).to_bits());
            }
        }
    }
}

/// A coordinate on a 1/16 grid.
pub fn q(t: &mut Tape, lo: i64, hi: i64) -> f32 {
    t.range(lo * 16, hi * 16) as f32 / 16.0
}
pub fn fv(x: f32) -> Val {
    Val::F32(x.to_bits())
}
pub fn v2(x: f32, y: f32) -> Val {
    Val::V2([x.to_bits(), y.to_bits()])
}
pub fn v3(it: &Item, tag: &str, p: [f32; 3]) -> Val {
    let b = p.map(f32::to_bits);
    match it.get(tag) {
        Some(Val::V3u(_)) => Val::V3u(b),
        _ => Val::V3(b),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct P {
    pub x: f32,
    pub y: f32,
    pub z: f32,
    pub smooth: bool,
}

/// A loop around a point that sees all of it.
pub fn ring(t: &mut Tape) -> Vec<P> {
    let n = t.usize(3, 8);
    let (cx, cy) = (q(t, 200, 700) as f64, q(t, 300, 1700) as f64);
    let turn = t.below(360) as f64;
    let cw = t.bool();
    let how = t.below(3);
    let grid = |x: f64| ((x * 16.0).round() / 16.0) as f32;
    (0..n)
        .map(|i| {
            let jitter = t.range(-30, 30) as f64 / 100.0;
            let a = (turn + 360.0 / n as f64 * (i as f64 + jitter)).to_radians() * if cw { 1.0 } else { -1.0 };
            let r = t.range(20, 200) as f64;
            P { x: grid(cx + r * a.cos()), y: grid(cy + r * a.sin()), z: 0.0, smooth: how == 1 || (how == 2 && t.bool()) }
        })
        .collect()
}
/// An open path without sharp turns.
pub fn path(t: &mut Tape) -> Vec<P> {
    let n = t.usize(2, 6);
    let (mut x, mut y) = (q(t, 200, 700), q(t, 300, 1700));
    let mut a = t.below(360) as f64;
    let how = t.below(3);
    let flat = t.bool();
    (0..n)
        .map(|_| {
            let p = P { x, y, z: if flat { 0.0 } else { q(t, -20, 20) }, smooth: how == 1 || (how == 2 && t.bool()) };
            a += t.range(-100, 100) as f64;
            let s = t.range(40, 200) as f64;
            x += ((s * a.to_radians().cos() * 16.0).round() / 16.0) as f32;
            y += ((s * a.to_radians().sin() * 16.0).round() / 16.0) as f32;
            p
        })
        .collect()
}
pub fn points(it: &Item) -> Vec<P> {
    it.points()
        .iter()
        .map(|rs| {
            let g = |tag: &str| rs.iter().find(|x| x.tag == tag).map(|x| &x.val);
            let f = |b: u32| f32::from_bits(b);
            let (x, y) = match g("VCEN") {
                Some(Val::V2(v)) => (f(v[0]), f(v[1])),
                _ => (0.0, 0.0),
            };
            let z = match g("POSZ") {
                Some(Val::F32(b)) => f(*b),
                _ => 0.0,
            };
            P { x, y, z, smooth: g("SMTH") == Some(&Val::Bool(true)) }
        })
        .collect()
}
pub fn set_points(t: &mut Tape, it: &mut Item, ps: &[P]) {
    let p = Prof { table_sized: true, ..Prof::default() };
    let old: Vec<Rec> = it.recs.iter().filter(|x| x.tag == "DPNT").cloned().collect();
    it.recs.retain(|x| x.tag != "DPNT");
    for (i, a) in ps.iter().enumerate() {
        let mut d = match old.get(i).map(|x| &x.val) {
            Some(Val::Sub(s)) => s.clone(),
            _ => gen_fields(t, &p, &schema().dragpoint),
        };
        for x in d.iter_mut() {
            match x.tag {
                "VCEN" => x.val = v2(a.x, a.y),
                "POSZ" => x.val = fv(a.z),
                "SMTH" => x.val = Val::Bool(a.smooth),
                _ => {}
            }
        }
        it.recs.push(Rec { tag: "DPNT", key: "drag_points", val: Val::Sub(d), optional: false });
    }
}

/// The kinds of part that have a mesh.
pub const SHAPES: [u32; 15] = [0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 12, 19, 20, 21, 22];
pub const SHAPES_AND_BALL: [u32; 16] = [0, 1, 3, 5, 6, 7, 8, 9, 10, 11, 12, 19, 20, 21, 22, 23];

fn mesh(t: &mut Tape) -> MeshM {
    let nv = t.usize(3, 12);
    let nf = t.usize(1, 12);
    let mut m = MeshM::default();
    for _ in 0..nv {
        let d = [t.range(-9, 9) as f32, t.range(-9, 9) as f32, t.range(1, 9) as f32];
        let l = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
        let mut v = [0u32; 8];
        for k in 0..3 {
            v[k] = q(t, -40, 40).to_bits();
            v[3 + k] = (d[k] / l).to_bits();
        }
        v[6] = unit(t).to_bits();
        v[7] = unit(t).to_bits();
        m.verts.push(v);
    }
    for _ in 0..nf * 3 {
        m.idx.push(t.below(nv as u64) as u32);
    }
    m
}

/// A part with ordinary geometry.
pub fn part(t: &mut Tape, i: usize, ty: u32) -> Item {
    let opt8 = *t.pick(&[0u64, 4, 8]);
    let prof = Prof { table_sized: true, unique_names: true, opt8, ..Prof::default() };
    let mut it = gen_item_of(t, &prof, i, ty);
    tame(t, &mut it);
    let c = (q(t, 50, 900), q(t, 50, 2000));
    it.set("VCEN", v2(c.0, c.1));
    for tag in ["ROTA", "ROTZ", "ROTX", "ROTY", "FROX", "FROY", "FROZ", "ORIN", "KORI"] {
        let a = if t.chance(1, 3) { *t.pick(&[0f32, 90.0, 180.0, -90.0, 270.0]) } else { q(t, -360, 360) };
        it.set_f(tag, a);
    }
    let mut size = |t: &mut Tape, it: &mut Item, tag: &str, lo: i64, hi: i64| {
        let v = q(t, lo, hi);
        it.set_f(tag, v);
    };
    match ty {
        0 => {
            let r = ring(t);
            set_points(t, &mut it, &r);
            let b = q(t, -20, 100);
            it.set_f("HTBT", b);
            let h = q(t, 1, 100);
            it.set_f("HTTP", b + h);
        }
        1 => {
            size(t, &mut it, "BASR", 12, 40);
            size(t, &mut it, "ENDR", 8, 20);
            size(t, &mut it, "FLPR", 60, 200);
            size(t, &mut it, "FRMN", 60, 200);
            size(t, &mut it, "ANGS", -180, 180);
            size(t, &mut it, "ANGE", -180, 180);
            size(t, &mut it, "FHGT", 10, 100);
            for (tag, old, lo, hi) in [("RTHF", "RTHK", 0, 7), ("RHGF", "RHGT", 0, 40), ("RWDF", "RWDT", 1, 60)] {
                size(t, &mut it, tag, lo, hi);
                let v = t.range(lo, hi) as u32;
                it.set(old, Val::U32(v));
            }
        }
        3 => {
            size(t, &mut it, "WDTH", 5, 60);
            size(t, &mut it, "HIGH", 5, 60);
            size(t, &mut it, "ZADJ", -20, 60);
            size(t, &mut it, "HPSL", 20, 150);
            for tag in ["MPRK", "RODD", "RNGD", "SPRD"] {
                let v = t.range(2, 60) as f32 / 64.0;
                it.set_f(tag, v);
            }
            for (tag, lo, hi) in [("RNGG", 1, 8), ("RNGW", 1, 8), ("SPRG", 1, 4), ("SPRL", 1, 12), ("SPRE", 0, 4)] {
                size(t, &mut it, tag, lo, hi);
            }
            let n = t.usize(0, 6);
            let mut y = 0;
            let mut s = vec![];
            for _ in 0..n {
                s.push(format!("{y} .{:02}", t.range(5, 95)));
                y += t.range(1, 9);
            }
            let s = if n == 0 && t.bool() { "0 .34; 2 .6; 3 .64; 5 .7; 7 .84; 8 .88; 9 .9; 11 .92; 14 .92; 39 .84".into() } else { s.join("; ") };
            it.set("TIPS", Val::Str(s));
        }
        5 => {
            size(t, &mut it, "RADI", 10, 80);
            size(t, &mut it, "HISC", 20, 150);
            size(t, &mut it, "RDLI", -20, 20);
        }
        6 => {
            size(t, &mut it, "RADI", 5, 60);
            size(t, &mut it, "SCAX", 1, 4);
            size(t, &mut it, "SCAY", 1, 4);
            size(t, &mut it, "WITI", 0, 3);
            let r = ring(t);
            set_points(t, &mut it, &r);
        }
        7 => {
            size(t, &mut it, "RADI", 10, 200);
            size(t, &mut it, "BMSC", 2, 60);
            size(t, &mut it, "HGHT", 0, 60);
            size(t, &mut it, "BHHI", 0, 60);
            size(t, &mut it, "BWTH", 0, 50);
            if t.chance(1, 8) {
                it.set_f("RADI", 0.0);
            }
            for tag in ["HGHT", "BHHI"] {
                if t.chance(1, 3) {
                    it.set_f(tag, 0.0);
                }
            }
            let r = if t.chance(1, 4) { vec![] } else { ring(t) };
            set_points(t, &mut it, &r);
            let gi = *t.pick(&["", "", "GI", "gi_", "Gi"]);
            let n = format!("{gi}{}", it.name());
            it.set("NAME", Val::WStr(n));
        }
        8 => {
            size(t, &mut it, "RADI", 5, 60);
        }
        9 => {
            size(t, &mut it, "WDTH", 5, 300);
            size(t, &mut it, "HIGH", 5, 300);
        }
        10 | 11 => {
            size(t, &mut it, "LGTH", 20, 150);
            size(t, &mut it, if ty == 10 { "HGTH" } else { "HIGH" }, 0, 100);
        }
        12 => {
            let r = path(t);
            set_points(t, &mut it, &r);
            for (tag, lo, hi) in [("HTBT", -10, 60), ("HTTP", -10, 120), ("WDBT", 10, 100), ("WDTP", 10, 100), ("WLHL", 0, 60), ("WLHR", 0, 60), ("RADI", 2, 12), ("RADX", 15, 60), ("RADY", 15, 60)] {
                size(t, &mut it, tag, lo, hi);
            }
            for tag in ["WVHL", "WVHR"] {
                let v = if t.bool() { 0.0 } else { q(t, 1, 60) };
                it.set_f(tag, v);
            }
        }
        19 => {
            it.recs.retain(|x| !x.tag.starts_with("M3"));
            let own = t.bool();
            it.set("U3DM", Val::Bool(own));
            if own || t.chance(1, 4) {
                it.recs.extend(mesh(t).recs());
            }
            let n = if t.chance(1, 4) { t.range(3, 40) } else { t.range(3, 8) };
            it.set("SIDS", Val::U32(n as u32));
            let p = [c.0, c.1, q(t, -50, 200)];
            let v = v3(&it, "VPOS", p);
            it.set("VPOS", v);
            let s = [q(t, 1, 100), q(t, 1, 100), if t.chance(1, 6) { q(t, -100, -1) } else { q(t, 1, 100) }];
            let v = v3(&it, "VSIZ", s);
            it.set("VSIZ", v);
            for k in 0..9 {
                let tag = ["RTV0", "RTV1", "RTV2", "RTV3", "RTV4", "RTV5", "RTV6", "RTV7", "RTV8"][k];
                let v = if t.bool() {
                    0.0
                } else if (3..6).contains(&k) {
                    q(t, -50, 50)
                } else {
                    q(t, -360, 360)
                };
                it.set_f(tag, v);
            }
        }
        20 => {
            let r = ring(t);
            set_points(t, &mut it, &r);
            size(t, &mut it, "FHEI", 0, 300);
            it.set_f("FLAX", c.0);
            it.set_f("FLAY", c.1);
            let a = if t.chance(1, 6) { t.range(-5, 200) } else { t.range(0, 100) };
            it.set("FALP", Val::I32(a as i32));
        }
        21 => {
            let r = ring(t);
            set_points(t, &mut it, &r);
            size(t, &mut it, "HTTP", 0, 80);
            size(t, &mut it, "HTHI", 0, 80);
            let w = t.range(2, 14);
            it.set("WDTP", Val::I32(w as i32));
        }
        22 => {
            let p = [c.0, c.1, q(t, -50, 200)];
            let v = v3(&it, "VPOS", p);
            it.set("VPOS", v);
            let s = [q(t, 1, 60), q(t, 1, 60), q(t, 1, 60)];
            let v = v3(&it, "VSIZ", s);
            it.set("VSIZ", v);
        }
        23 => {
            let p = [c.0, c.1, q(t, 0, 200)];
            let v = v3(&it, "VCEN", p);
            it.set("VCEN", v);
            size(t, &mut it, "RADI", 5, 60);
        }
        _ => {}
    }
    it
}

/// Tags that name an image, a material.
pub fn image_tags(ty: u32) -> &'static [&'static str] {
    match ty {
        0 => &["IMAG", "SIMG"],
        1 | 3 | 9 | 12 | 19 | 22 => &["IMAG"],
        7 => &["IMG1"],
        11 => &["IMGF"],
        20 => &["IMAG", "IMAB"],
        23 => &["DIMG"],
        _ => &[],
    }
}
pub fn material_tags(ty: u32) -> &'static [&'static str] {
    match ty {
        0 => &["TOMA", "SIMA"],
        1 => &["MATR", "RUMA"],
        5 => &["MATR", "BAMA", "SKMA", "RIMA"],
        _ => &["MATR"],
    }
}
fn recase(t: &mut Tape, s: &str) -> String {
    match t.below(3) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        _ => s.to_string(),
    }
}

#[derive(Clone, Debug)]
pub struct Mat {
    pub name: String,
    pub rgb: [f64; 3],
    pub active: bool,
    pub opacity: f64,
    pub metal: bool,
    pub rough: f64,
    pub gloss: [f64; 3],
}
fn rgb(c: u32) -> [f64; 3] {
    [0, 8, 16].map(|s| (c >> s & 255) as f64 / 255.0)
}
/// A stored colour as red, green and blue from 0 to 1.
pub fn color(v: Option<&Val>) -> [f64; 3] {
    match v {
        Some(Val::Color(c)) => rgb(*c),
        _ => [0.0; 3],
    }
}
/// The materials of a table; the old list counts only without a new one.
pub fn materials(tb: &Table) -> Vec<Mat> {
    if tb.gd.iter().any(|x| x.tag == "MATR") { new_materials(tb) } else { old_materials(tb) }
}
fn new_materials(tb: &Table) -> Vec<Mat> {
    let f = |b: u32| f32::from_bits(b) as f64;
    let mut new = vec![];
    for x in &tb.gd {
        if let ("MATR", Val::Nested(m, _)) = (x.tag, &x.val) {
            let g = |tag: &str| m.iter().find(|y| y.tag == tag).map(|y| &y.val);
            let num = |tag: &str| if let Some(Val::F32(b)) = g(tag) { f(*b) } else { 0.0 };
            new.push(Mat {
                name: if let Some(Val::Str(s)) = g("NAME") { s.clone() } else { String::new() },
                rgb: color(g("BASE")),
                active: g("EOPA") == Some(&Val::Bool(true)),
                opacity: num("OPAC"),
                metal: g("TYPE") == Some(&Val::I32(1)),
                rough: num("ROUG"),
                gloss: color(g("GLOS")),
            });
        }
    }
    new
}
/// Those of the table's old list.
pub fn old_materials(tb: &Table) -> Vec<Mat> {
    let f = |b: u32| f32::from_bits(b) as f64;
    let mut new = vec![];
    {
        for x in &tb.gd {
            if let ("MATE", Val::Bytes(b)) = (x.tag, &x.val) {
                for m in b.chunks_exact(76) {
                    let num = |at: usize| f(u32::from_le_bytes(m[at..at + 4].try_into().unwrap()));
                    let name = m[..32].split(|c| *c == 0).next().unwrap();
                    new.push(Mat {
                        name: name.iter().map(|c| *c as char).collect(),
                        rgb: [m[32], m[33], m[34]].map(|c| c as f64 / 255.0),
                        active: m[72] & 1 == 1,
                        opacity: num(68),
                        metal: m[48] != 0,
                        rough: num(52),
                        gloss: [m[36], m[37], m[38]].map(|c| c as f64 / 255.0),
                    });
                }
            }
        }
    }
    new
}

/// Names images, materials and surfaces of the table in its parts.
pub fn link(t: &mut Tape, tb: &mut Table) {
    let images: Vec<String> = tb.images.iter().filter_map(|im| if let Val::Str(s) = &im[0].val { Some(s.clone()) } else { None }).collect();
    let mats: Vec<String> = materials(tb).iter().map(|m| m.name.clone()).collect();
    let surfaces: Vec<String> = tb.items.iter().filter(|i| i.ty == 0 || i.ty == 12).map(|i| i.name()).collect();
    let one = |t: &mut Tape, xs: &[String], case: bool| -> String {
        match t.below(8) {
            0 | 1 => String::new(),
            2 => "Missing".into(),
            _ if xs.is_empty() => String::new(),
            _ => {
                let s = t.pick(xs).clone();
                // references are in the narrow encoding
                if s.chars().any(|c| c as u32 > 255) {
                    return String::new();
                }
                if case { recase(t, &s) } else { s }
            }
        }
    };
    for it in tb.items.iter_mut() {
        for tag in image_tags(it.ty) {
            let v = one(t, &images, true);
            it.set(tag, Val::Str(v));
        }
        for tag in material_tags(it.ty) {
            let v = one(t, &mats, false);
            it.set(tag, Val::Str(v));
        }
        let v = one(t, &surfaces, true);
        it.set("SURF", Val::Str(v));
    }
    for (tag, xs, case) in [("IMAG", &images, true), ("BLIF", &images, true), ("PLMA", &mats, false)] {
        let v = one(t, xs, case);
        if tb.gd_get(tag).is_some() {
            tb.gd_set(tag, Val::Str(v));
        }
    }
}
