//! P21: legacy material tables.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::scene;
use crate::tape::{hash_bytes, Tape};
use crate::tgen::*;
use crate::wire::*;
use serde_json::{json, Value};
use vpin::vpx::material::{Material, MaterialType, SaveMaterial, SavePhysicsMaterial};

fn pick_f32(t: &mut Tape) -> f32 {
    let p = Prof::default();
    match t.below(5) {
        // around the steps of the 7 and 8 bit codes
        0 => t.range(0, 256) as f32 / *t.pick(&[255.0, 256.0, 127.0, 128.0]),
        1 => f32::from_bits((t.range(0, 256) as f32 / 256.0).to_bits().wrapping_add(1)),
        2 => t.range(-20, 120) as f32 / 100.0,
        3 => f32::from_bits(((t.range(1, 256) as f32) / 256.0).to_bits() - 1),
        _ => f32::from_bits(gen_f32(t, &p)),
    }
}
fn gen_mat(t: &mut Tape) -> Vec<Rec> {
    let mut m = gen_material(t, &Prof::default());
    for x in m.iter_mut() {
        if let Val::F32(_) = x.val {
            x.val = Val::F32(pick_f32(t).to_bits());
        }
    }
    m
}
fn val<'a>(m: &'a [Rec], tag: &str) -> &'a Val {
    &m.iter().find(|x| x.tag == tag).unwrap().val
}
fn num(m: &[Rec], tag: &str) -> f32 {
    match val(m, tag) {
        Val::F32(b) => f32::from_bits(*b),
        _ => unreachable!(),
    }
}
fn text(m: &[Rec]) -> String {
    match val(m, "NAME") {
        Val::Str(s) => s.clone(),
        _ => unreachable!(),
    }
}
fn set_mats(tb: &mut Table, mats: &[Vec<Rec>]) {
    tb.gd.retain(|x| x.tag != "MATR");
    let at = tb.gd.iter().position(|x| x.tag == "RPRB").or_else(|| tb.gd.iter().position(|x| x.tag == "SEDT")).unwrap();
    for (i, m) in mats.iter().enumerate() {
        tb.gd.insert(at + i, Rec { tag: "MATR", key: "", val: Val::Nested(m.clone(), vec![]), optional: false });
    }
}
fn set_legacy(t: &mut Tape, tb: &mut Table, count: usize, physics: bool) {
    let p = Prof::default();
    let mut mate = vec![];
    let mut ph = vec![];
    for _ in 0..count {
        mate.extend(gen_save_mat(t, &p));
        // not a number is allowed among physics values
        let finite = !t.chance(1, 3);
        ph.extend(gen_save_phys(t, &Prof { finite, ..Prof::default() }));
    }
    tb.gd_set("MASI", Val::U32(count as u32));
    tb.gd_set("MATE", Val::Bytes(mate));
    tb.gd.retain(|x| x.tag != "PHMA");
    if physics {
        let at = tb.gd.iter().position(|x| x.tag == "MATE").unwrap();
        tb.gd.insert(at + 1, Rec { tag: "PHMA", key: "", val: Val::Bytes(ph), optional: true });
    }
}
fn count(t: &mut Tape) -> usize {
    match t.below(6) {
        0 => 0,
        1 => t.usize(10, 60),
        _ => t.usize(1, 6),
    }
}
fn tables(tb: &Table) -> Vec<(String, Option<Val>)> {
    ["MASI", "MATE", "PHMA"].iter().map(|x| (x.to_string(), tb.gd_get(x).cloned())).collect()
}

/// Tables without modern materials.
fn legacy(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = scene::base(t, vec![]);
    tb.gd.retain(|x| x.tag != "MATR");
    let n = count(t);
    let physics = t.chance(3, 4);
    set_legacy(t, &mut tb, n, physics);
    c.nontrivial = n > 0;
    c.class_if(!physics, "without physics table");
    let want = tb.streams();
    c.hash = hash_bytes(format!("{:?}", tables(&tb)).as_bytes());
    c.sample = Some(json!({"legacy materials": n, "physics": physics}));
    // through the library, several times
    let mut v = parse(&want)?;
    let mut way = vec![];
    for _ in 0..t.usize(1, 4) {
        let k = t.below(4);
        way.push(["saved", "expanded to obj", "expanded to glb", "expanded to gltf"][k as usize]);
        v = if k == 0 { parse(&save(&v)?)? } else { assemble(&expand(&v, k - 1, false)?)? };
    }
    let got = save(&v)?;
    diff_streams(&normalise(&want), &normalise(&got)).map_err(|e| format!("{way:?}: {e}"))
}

/// Modern materials with stale, missing or matching legacy tables.
fn derived(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = scene::base(t, vec![]);
    let n = count(t).max(1);
    let mats: Vec<Vec<Rec>> = (0..n).map(|_| gen_mat(t)).collect();
    set_mats(&mut tb, &mats);
    let stale = t.chance(2, 3);
    if stale {
        let (k, ph) = (count(t), t.bool());
        set_legacy(t, &mut tb, k, ph);
        c.class("stale legacy tables");
    } else {
        derive_legacy_tables(&mut tb);
        c.class("matching legacy tables");
    }
    c.nontrivial = true;
    c.hash = hash_bytes(format!("{:?}{mats:?}", tables(&tb)).as_bytes());
    c.sample = Some(json!({"materials": mats.iter().map(|m| text(m)).collect::<Vec<_>>(), "stale": stale}));
    let first = tb.streams();
    let v = parse(&first)?;
    let files = expand(&v, t.below(3), false)?;
    if !stale {
        // nothing changes at all
        let got = save(&assemble(&files)?)?;
        diff_streams(&normalise(&first), &normalise(&got))?;
    }
    // edits of the expanded form
    let mut files = files;
    let mut now = mats;
    let mut list = json_of(&files)?;
    let edits = if t.bool() { 0 } else { t.usize(1, 4) };
    for _ in 0..edits {
        match t.below(5) {
            0 if now.len() > 1 => {
                c.class("material removed");
                let k = t.usize(0, now.len() - 1);
                now.remove(k);
                list.remove(k);
            }
            1 => {
                c.class("materials swapped");
                let (a, b) = (t.usize(0, now.len() - 1), t.usize(0, now.len() - 1));
                now.swap(a, b);
                list.swap(a, b);
            }
            2 => {
                c.class("material repeated");
                let k = t.usize(0, now.len() - 1);
                let m = now[k].clone();
                now.push(m);
                let x = list[k].clone();
                list.push(x);
            }
            _ => {
                c.class("material changed");
                let k = t.usize(0, now.len() - 1);
                let m = gen_mat(t);
                let tag = *t.pick(&["GIML", "THCK", "EALP", "EDGE", "ROUG", "OPAC", "WLIG", "ELAS", "ELFO", "FRIC", "SCAT", "NAME", "BASE", "GLOS", "COAT", "EOPA", "TYPE"]);
                let new = m.iter().find(|x| x.tag == tag).unwrap();
                let key = new.key;
                list[k][key] = match &new.val {
                    Val::F32(b) => json!(f32::from_bits(*b)),
                    Val::Str(s) => json!(s),
                    Val::Bool(b) => json!(b),
                    Val::I32(x) => json!(["unknown", "basic", "metal"][(*x + 1) as usize]),
                    Val::Color(x) => json!(color_text(*x)),
                    _ => unreachable!(),
                };
                let at = now[k].iter_mut().find(|x| x.tag == tag).unwrap();
                at.val = new.val.clone();
            }
        }
    }
    if edits > 0 {
        set_json(&mut files, "materials.json", &Value::Array(list));
    }
    let got = save(&assemble(&files)?)?;
    // the same table with the legacy tables of the materials
    let mut tb2 = tb;
    set_mats(&mut tb2, &now);
    derive_legacy_tables(&mut tb2);
    diff_streams(&normalise(&tb2.streams()), &normalise(&got)).map_err(|e| format!("after {edits} edits: {e}"))
}
fn json_of(files: &Files) -> Result<Vec<Value>, String> {
    json(files, "materials.json")?.as_array().cloned().ok_or("materials.json is no list".into())
}
fn color_text(x: u32) -> String {
    let b = x.to_le_bytes();
    if b[3] == 0 { format!("#{:02x}{:02x}{:02x}", b[0], b[1], b[2]) } else { format!("{:02x}#{:02x}{:02x}{:02x}", b[3], b[0], b[1], b[2]) }
}

/// The conversion of one material through the programming interface.
fn conversion(t: &mut Tape, c: &mut Case) -> Res {
    let m = gen_mat(t);
    let Val::Color(base) = *val(&m, "BASE") else { unreachable!() };
    let Val::Color(glos) = *val(&m, "GLOS") else { unreachable!() };
    let Val::Color(coat) = *val(&m, "COAT") else { unreachable!() };
    let color = vpin::vpx::color::Color::from_win_color;
    let mut mat = Material::default();
    mat.name = text(&m);
    mat.type_ = match val(&m, "TYPE") {
        Val::I32(-1) => MaterialType::Unknown,
        Val::I32(1) => MaterialType::Metal,
        _ => MaterialType::Basic,
    };
    mat.wrap_lighting = num(&m, "WLIG");
    mat.roughness = num(&m, "ROUG");
    mat.glossy_image_lerp = num(&m, "GIML");
    mat.thickness = num(&m, "THCK");
    mat.edge = num(&m, "EDGE");
    mat.edge_alpha = num(&m, "EALP");
    mat.opacity = num(&m, "OPAC");
    mat.base_color = color(base);
    mat.glossy_color = color(glos);
    mat.clearcoat_color = color(coat);
    mat.opacity_active = *val(&m, "EOPA") == Val::Bool(true);
    mat.elasticity = num(&m, "ELAS");
    mat.elasticity_falloff = num(&m, "ELFO");
    mat.friction = num(&m, "FRIC");
    mat.scatter_angle = num(&m, "SCAT");
    c.nontrivial = mat.glossy_image_lerp > 0.0 && mat.glossy_image_lerp < 1.0 || mat.edge_alpha > 0.0 && mat.edge_alpha < 1.0 || mat.thickness > 0.05 && mat.thickness < 1.0;
    c.hash = hash_bytes(format!("{m:?}").as_bytes());
    c.sample = Some(json!({"glossy_image_lerp": mat.glossy_image_lerp, "thickness": mat.thickness, "edge_alpha": mat.edge_alpha}));
    let s = SaveMaterial::from(&mat);
    let p = SavePhysicsMaterial::from(&mat);
    ensure!(s.name == mat.name && p.name == mat.name, "names {:?} and {:?} of {:?}", s.name, p.name, mat.name);
    ensure!([s.base_color, s.glossy_color, s.clearcoat_color] == [mat.base_color, mat.glossy_color, mat.clearcoat_color], "colours differ");
    for (n, a, b) in [
        ("wrap lighting", s.wrap_lighting, mat.wrap_lighting),
        ("roughness", s.roughness, mat.roughness),
        ("edge", s.edge, mat.edge),
        ("opacity", s.opacity, mat.opacity),
        ("elasticity", p.elasticity, mat.elasticity),
        ("falloff", p.elasticity_falloff, mat.elasticity_falloff),
        ("friction", p.friction, mat.friction),
        ("scatter", p.scatter_angle, mat.scatter_angle),
    ] {
        ensure!(a.to_bits() == b.to_bits(), "{n}: {a} instead of {b}");
    }
    ensure!(s.is_metal == (mat.type_ == MaterialType::Metal), "metal: {}", s.is_metal);
    ensure!((s.opacity_active_edge_alpha & 1 == 1) == mat.opacity_active, "opacity flag");
    let within = |n: &str, code: u8, steps: f64, want: f32, lo: f64| -> Res {
        let want = (want as f64).clamp(lo, 1.0);
        let got = code as f64 / steps;
        ensure!((got - want).abs() <= 1.0 / steps, "{n}: {want} became {got}");
        Ok(())
    };
    within("glossy image", 255 - s.glossy_image_lerp, 255.0, mat.glossy_image_lerp, 0.0)?;
    within("thickness", s.thickness, 255.0, mat.thickness, 0.05f32 as f64)?;
    within("edge alpha", s.opacity_active_edge_alpha >> 1, 127.0, mat.edge_alpha, 0.0)
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("legacy", ctx.n(8000, 200000), "a table with at least one legacy material and none of the modern ones; distinct by material tables", legacy);
    ctx.sub("derived", ctx.n(12000, 300000), "a table with modern materials; distinct by materials", derived);
    ctx.sub("conversion", ctx.n(400000, 8000000), "a quantised value inside its range; distinct by material", conversion);
}
