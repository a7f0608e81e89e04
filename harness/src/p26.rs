//! P26: questions about parts and settings are answered by what the table stores.

use crate::engine::*;
use crate::ensure;
use crate::exp::parse;
use crate::p01::{base_gd, summary};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use vpin::vpx::gamedata::GameData;
use vpin::vpx::gameitem::{validate_part_group_order, GameItemEnum};
use vpin::vpx::version::Version;

/// type number, name, records of images, of materials, of visibility
const PARTS: &[(u32, &str, &[&str], &[&str], &[&str])] = &[
    (0, "Wall", &["IMAG", "SIMG"], &["TOMA", "SIMA", "SLMA"], &["VSBL", "SVBL"]),
    (1, "Flipper", &["IMAG"], &["MATR", "RUMA"], &["VSBL"]),
    (2, "Timer", &[], &[], &[]),
    (3, "Plunger", &["IMAG"], &["MATR"], &["VSBL"]),
    (4, "TextBox", &[], &[], &[]),
    (5, "Bumper", &[], &["MATR", "BAMA", "RIMA", "SKMA"], &[]),
    (6, "Trigger", &[], &["MATR"], &["VSBL"]),
    (7, "Light", &["IMG1"], &[], &["VSBL"]),
    (8, "Kicker", &[], &["MATR"], &[]),
    (9, "Decal", &["IMAG"], &["MATR"], &[]),
    (10, "Gate", &[], &["MATR"], &["GVSB"]),
    (11, "Spinner", &["IMGF"], &["MATR"], &["SVIS"]),
    (12, "Ramp", &["IMAG"], &["MATR"], &["RVIS"]),
    (17, "Reel", &["IMAG"], &[], &["VISI"]),
    (18, "LightSequencer", &[], &[], &[]),
    (19, "Primitive", &["IMAG", "NRMA", "LMAP"], &["MATR"], &["TVIS"]),
    (20, "Flasher", &["IMAG", "IMAB", "LINK", "LMAP"], &[], &["FVIS"]),
    (21, "Rubber", &["IMAG"], &["MATR"], &["RVIS"]),
    (22, "HitTarget", &["IMAG"], &["MATR"], &["TVIS"]),
    (23, "Ball", &["IMAG", "DIMG"], &[], &[]),
    (24, "PartGroup", &[], &[], &[]),
];
/// only parts that can be hit have one
const PHYSICS: &[u32] = &[0, 12, 19, 21, 22];

fn prof() -> Prof {
    Prof { raw_blobs: false, opt8: 6, mesh_max: 4, ..Default::default() }
}

fn text(it: &Item, tag: &str) -> Option<String> {
    match it.get(tag) {
        Some(Val::Str(s)) | Some(Val::WStr(s)) => Some(s.clone()),
        _ => None,
    }
}
fn flag(it: &Item, tag: &str) -> Option<bool> {
    match it.get(tag) {
        Some(Val::Bool(b)) => Some(*b),
        _ => None,
    }
}

fn answers(it: &Item, p: &GameItemEnum) -> Res {
    let (_, name, images, materials, visible) = PARTS.iter().find(|x| x.0 == it.ty).ok_or("type")?;
    ensure!(p.type_name() == *name, "type {} is called {}", it.ty, p.type_name());
    ensure!(GameItemEnum::type_id(&p.type_name()) == it.ty, "{name} has number {}", GameItemEnum::type_id(name));
    ensure!(p.name() == it.name(), "name {:?} of {name} {:?}", p.name(), it.name());
    let layer = match it.get("LAYR") {
        Some(Val::U32(v)) if it.ty != 24 => Some(*v),
        _ => None,
    };
    ensure!(p.editor_layer() == layer, "layer {:?} of {name}: {layer:?} is stored", p.editor_layer());
    let layer_name = text(it, "LANR");
    ensure!(*p.editor_layer_name() == layer_name, "layer name {:?} of {name}: {layer_name:?} is stored", p.editor_layer_name());
    let shown = flag(it, "LVIS");
    ensure!(p.editor_layer_visibility() == shown, "layer visibility {:?} of {name}: {shown:?} is stored", p.editor_layer_visibility());
    let locked = flag(it, "LOCK");
    ensure!(p.is_locked() == locked, "locked {:?} of {name}: {locked:?} is stored", p.is_locked());
    let group = text(it, "GRUP");
    ensure!(p.part_group_name() == group.as_deref(), "group {:?} of {name}: {group:?} is stored", p.part_group_name());
    for (what, tags, got) in [("images", images, p.images()), ("materials", materials, p.materials())] {
        let mut want: Vec<String> = tags.iter().filter_map(|g| text(it, g)).filter(|s| !s.is_empty()).collect();
        let mut have: Vec<String> = got.iter().map(|s| s.to_string()).collect();
        let again: Vec<String> = if what == "images" { p.images() } else { p.materials() }.iter().map(|s| s.to_string()).collect();
        ensure!(have == again, "{what} of {name}: {have:?}, then {again:?}");
        want.sort();
        have.sort();
        ensure!(want == have, "{what} of {name}: {have:?}, stored are {want:?}");
    }
    let physics = if PHYSICS.contains(&it.ty) { text(it, "MAPH").filter(|s| !s.is_empty()) } else { None };
    ensure!(p.physics_material() == physics.as_deref(), "physics material {:?} of {name}: {physics:?} is stored", p.physics_material());
    let flags: Vec<bool> = visible.iter().filter_map(|g| flag(it, g)).collect();
    let want = if flags.is_empty() { None } else { Some(flags.iter().any(|b| *b)) };
    ensure!(p.is_visible() == want, "visible {:?} of {name}: {flags:?} are stored", p.is_visible());
    Ok(())
}

/// What a part answers, as text.
fn all(p: &GameItemEnum) -> String {
    format!(
        "{:?}",
        (p.type_name(), p.name(), p.editor_layer(), p.editor_layer_name(), p.editor_layer_visibility(), p.is_locked(), p.part_group_name(), p.images(), p.materials(), p.physics_material(), p.is_visible())
    )
}

fn parts(t: &mut Tape, c: &mut Case) -> Res {
    let p = prof();
    let v = *t.pick(&p.versions);
    let mut tb = Table { version: v, gd: base_gd(), ..Default::default() };
    for i in 0..t.usize(1, 8) {
        let mut it = gen_item(t, &p, i);
        // several references at once
        for x in it.recs.iter_mut() {
            if let Val::Str(s) = &mut x.val {
                if t.chance(1, 3) {
                    *s = t.pick(&["", "A", "B", "a", " ", "\u{e9}"]).to_string();
                }
            }
        }
        tb.items.push(it);
    }
    tb.fix_counts();
    let s = tb.streams();
    c.nontrivial = true;
    c.hash = streams_hash(&s);
    c.evals = tb.items.len() as u64;
    c.sample = Some(summary(&tb));
    for it in &tb.items {
        c.class(type_name(it.ty));
    }
    let vpx = parse(&s)?;
    ensure!(vpx.gameitems.len() == tb.items.len(), "{} parts of {}", vpx.gameitems.len(), tb.items.len());
    for (k, (it, p)) in tb.items.iter().zip(&vpx.gameitems).enumerate() {
        answers(it, p).map_err(|e| format!("part {k}: {e}"))?;
        // a part read on its own answers the same
        let own = guard(|| vpin::vpx::gameitem::read(&it.stream()))?;
        ensure!(all(&own) == all(p), "part {k} read on its own: {} instead of {}", all(&own), all(p));
    }
    Ok(())
}

fn groups(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { opt8: 4, mesh_max: 2, ..prof() };
    let pool = ["G", "H", "g", "", "G ", "Gr\u{fc}n"];
    let v = *t.pick(&p.versions);
    let mut tb = Table { version: v, gd: base_gd(), ..Default::default() };
    for i in 0..t.usize(1, 10) {
        let ty = if t.chance(1, 3) { 24 } else { *t.pick(&ALL_TYPES) };
        let mut it = gen_item_of(t, &p, i, ty);
        let g = t.pick(&pool).to_string();
        if ty == 24 {
            it.set("NAME", Val::WStr(g));
        } else if it.get("GRUP").is_some() {
            it.set("GRUP", Val::Str(g));
        }
        tb.items.push(it);
    }
    tb.fix_counts();
    let s = tb.streams();
    c.hash = streams_hash(&s);
    c.evals = tb.items.len() as u64;
    c.sample = Some(summary(&tb));
    // a reference is fine when a group of that very name comes before it
    let mut want = vec![];
    for (k, it) in tb.items.iter().enumerate() {
        if let Some(g) = text(it, "GRUP") {
            if !tb.items[..k].iter().any(|x| x.ty == 24 && x.name() == g) {
                want.push((k, it.name(), g));
            }
        }
    }
    let refs = tb.items.iter().filter(|x| text(x, "GRUP").is_some()).count();
    c.nontrivial = refs > 0;
    c.class_if(!want.is_empty(), "reference before its group");
    c.class_if(refs > want.len(), "reference after its group");
    let vpx = parse(&s)?;
    let got = guard(|| validate_part_group_order(&vpx.gameitems))?;
    ensure!(got.len() == want.len(), "{} warnings instead of {}: {got:?}, {want:?}", got.len(), want.len());
    for (w, (k, n, g)) in got.iter().zip(&want) {
        ensure!(w.contains(&k.to_string()) && w.contains(n.as_str()) && w.contains(g.as_str()), "warning {w:?} for part {k} {n:?} in {g:?}");
    }
    Ok(())
}

fn settings(t: &mut Tape, c: &mut Case) -> Res {
    let mut g = GameData::default();
    g.user_detail_level = if t.chance(1, 4) { None } else { Some(t.below(12) as u32) };
    g.overwrite_global_detail_level = *t.pick(&[None, Some(false), Some(true)]);
    let want = match (g.overwrite_global_detail_level, g.user_detail_level) {
        (Some(true), Some(d)) => d,
        _ => 10,
    };
    ensure!(g.effective_detail_level() == want, "detail level {} instead of {want} ({:?}, {:?})", g.effective_detail_level(), g.overwrite_global_detail_level, g.user_detail_level);
    let before = g.clone_settings();
    g.ball_trail_strength = None;
    ensure!(g.get_ball_trail_strength().is_none(), "trail strength of a table without one");
    let code = t.below(256) as u32;
    g.ball_trail_strength = Some(code);
    let x = g.get_ball_trail_strength().ok_or("trail strength is lost")?;
    ensure!((x as f64 - code as f64 / 255.0).abs() < 1e-6, "trail strength {x} for code {code}");
    g.set_ball_trail_strength(x);
    ensure!(g.ball_trail_strength == Some(code), "trail strength {code} becomes {:?}", g.ball_trail_strength);
    let y = (t.below(1_000_001) as f32) / 1e6;
    g.set_ball_trail_strength(y);
    let z = g.get_ball_trail_strength().ok_or("trail strength is lost")?;
    ensure!((z - y).abs() <= 1.01 / 255.0, "trail strength {y} is kept as {z}");
    ensure!(g.clone_settings() == before, "setting the trail strength changes the detail level");
    let (a, b) = (version(t), version(t));
    let (va, vb) = (Version::new(a), Version::new(b));
    ensure!(va.u32() == a && u32::from(va.clone()) == a, "version {a} is {}", va.u32());
    ensure!(Version::parse(&va.to_u32_string()).map_err(|e| e.to_string())? == va, "version {a} as text");
    ensure!(va.to_u32_string() == a.to_string(), "version {a} is written {}", va.to_u32_string());
    ensure!((va < vb) == (a < b) && (va == vb) == (a == b) && (va > vb) == (a > b), "order of versions {a} and {b}");
    let junk = t.pick(&["", " 1080", "10.80", "-1", "4294967296", "1080x", "0x10"]).to_string();
    ensure!(Version::parse(&junk).is_err(), "{junk:?} is a version");
    c.nontrivial = g.overwrite_global_detail_level.is_some() && g.user_detail_level.is_some();
    c.hash = a as u64 ^ ((b as u64) << 32) ^ ((code as u64) << 20) ^ y.to_bits() as u64;
    c.sample = Some(json!({"versions": [a, b], "detail": g.user_detail_level, "code": code}));
    Ok(())
}
fn version(t: &mut Tape) -> u32 {
    match t.below(3) {
        0 => *t.pick(&[1080, 1081, 1072, 0, u32::MAX]),
        1 => 1000 + t.below(200) as u32,
        _ => t.any() as u32,
    }
}
trait CloneSettings {
    fn clone_settings(&self) -> (Option<u32>, Option<bool>, u32);
}
impl CloneSettings for GameData {
    fn clone_settings(&self) -> (Option<u32>, Option<bool>, u32) {
        (self.user_detail_level, self.overwrite_global_detail_level, self.effective_detail_level())
    }
}

/// Parts of types this version does not know keep their name and their records, and disturb no others.
fn unknown(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { opt8: 4, mesh_max: 2, ..prof() };
    let v = *t.pick(&p.versions);
    let mut tb = Table { version: v, gd: base_gd(), ..Default::default() };
    let n = t.usize(1, 6);
    for i in 0..n {
        let strange = t.bool();
        let like = *t.pick(&[1u32, 2, 8, 10, 18]);
        let mut it = if strange { gen_item_of(t, &p, i, like) } else { gen_item(t, &p, i) };
        if strange {
            it.ty = if t.bool() { 25 + t.below(4) as u32 } else { 25 + (t.any() as u32).min(u32::MAX - 26) };
            // records without data, and records that repeat
            for _ in 0..t.usize(0, 3) {
                it.recs.push(r(t.pick(&["MARK", "VSBL", "ABCD"]), "", Val::Marker));
            }
            let order = t.perm(it.recs.len());
            it.recs = order.iter().map(|k| it.recs[*k].clone()).collect();
            c.nontrivial = true;
        }
        tb.items.push(it);
    }
    tb.fix_counts();
    let s = tb.streams();
    c.hash = streams_hash(&s);
    c.evals = n as u64;
    c.sample = Some(json!(tb.items.iter().map(|x| (x.ty, x.name(), x.recs.len())).collect::<Vec<_>>()));
    let vpx = parse(&s)?;
    ensure!(vpx.gameitems.len() == n, "{} parts of {n}", vpx.gameitems.len());
    for (k, (it, p)) in tb.items.iter().zip(&vpx.gameitems).enumerate() {
        if it.ty < 25 {
            answers(it, p).map_err(|e| format!("part {k}: {e}"))?;
            continue;
        }
        let GameItemEnum::Generic(ty, g) = p else { return Err(format!("part {k} of type {} was read as {}", it.ty, p.type_name())) };
        ensure!(*ty == it.ty, "part {k} of type {} has type {ty}", it.ty);
        ensure!(p.name() == it.name(), "part {k}: name {:?}, stored is {:?}", p.name(), it.name());
        let want: Vec<(String, Vec<u8>)> = it.recs.iter().filter(|x| x.tag != "NAME").map(|x| (x.tag.to_string(), payload(&x.val))).collect();
        ensure!(g.fields.len() == want.len(), "part {k}: {} records of {}", g.fields.len(), want.len());
        for (a, b) in g.fields.iter().zip(&want) {
            ensure!(a == b, "part {k}: record {a:?}, stored is {b:?}");
        }
        ensure!(p.images().is_empty() && p.materials().is_empty() && p.physics_material().is_none() && p.part_group_name().is_none() && p.is_visible().is_none(), "part {k} of an unknown type refers to something");
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("unknown types", ctx.n(20000, 400000), "a part of an unknown type; distinct by stream contents", unknown);
    ctx.sub("parts", ctx.n(30000, 600000), "one to eight parts, each asked everything; distinct by stream contents", parts);
    ctx.sub("groups", ctx.n(20000, 400000), "a part that names a group; distinct by stream contents", groups);
    ctx.sub("settings", ctx.n(200000, 4000000), "a detail level that may or may not apply; distinct by values", settings);
}
