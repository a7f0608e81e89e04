//! P18: whole-table exports to GLB and glTF.

use crate::engine::*;
use crate::ensure;
use crate::exp::parse;
use crate::gltfx::Doc;
use crate::p01::{classes, summary};
use crate::scene::*;
use crate::stock;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use crate::world::{self, Node};
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::Path;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::export::gltf_export::{GltfExportOptions, export_gltf};
use vpin::vpx::units::ExportUnits;
use vpin::vpx::VPX;

pub const UNITS: [(ExportUnits, f64); 4] = [(ExportUnits::Vpu, 1.0), (ExportUnits::Mm, 0.53975), (ExportUnits::Cm, 0.053975), (ExportUnits::M, 0.00053975)];

pub fn glb(v: &VPX, unit: usize, invisible: bool) -> Result<Vec<u8>, String> {
    let fs = MemoryFileSystem::default();
    fs.create_dir_all(Path::new("/t")).map_err(|e| e.to_string())?;
    let mut o = GltfExportOptions::glb().with_export_invisible_items(invisible);
    o.units = UNITS[unit].0;
    guard(|| export_gltf(v, Path::new("/t/x.glb"), &fs, &o))?.map_err(|e| format!("exporting GLB: {e}"))?;
    fs.get_file("/t/x.glb").ok_or("no x.glb".into())
}
pub fn gltf(v: &VPX, unit: usize, invisible: bool) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let fs = MemoryFileSystem::default();
    fs.create_dir_all(Path::new("/t")).map_err(|e| e.to_string())?;
    let mut o = GltfExportOptions::gltf().with_export_invisible_items(invisible);
    o.units = UNITS[unit].0;
    guard(|| export_gltf(v, Path::new("/t/x y.gltf"), &fs, &o))?.map_err(|e| format!("exporting glTF: {e}"))?;
    let mut m = BTreeMap::new();
    for n in fs.list_files() {
        let d = fs.get_file(&n).ok_or("listed file is missing")?;
        m.insert(n.strip_prefix("/t/").unwrap_or(&n).to_string(), d);
    }
    Ok(m)
}
pub fn gltf_doc(m: &BTreeMap<String, Vec<u8>>) -> Result<Doc, String> {
    Doc::from_gltf(m.get("x y.gltf").ok_or("no glTF file")?, &|u| m.get(u).cloned().ok_or(format!("no file {u:?}")))
}

// ---- what a table must show

/// Numbers and texts of a part, as stored.
pub fn f(it: &Item, tag: &str) -> f64 {
    it.f(tag) as f64
}
pub fn b(it: &Item, tag: &str, d: bool) -> bool {
    match it.get(tag) {
        Some(Val::Bool(x)) => *x,
        _ => d,
    }
}
pub fn s(it: &Item, tag: &str) -> String {
    match it.get(tag) {
        Some(Val::Str(x)) | Some(Val::WStr(x)) => x.clone(),
        _ => String::new(),
    }
}
pub fn e(it: &Item, tag: &str) -> u32 {
    match it.get(tag) {
        Some(Val::Enum(x)) => *x,
        Some(Val::U32(x)) => *x,
        Some(Val::I32(x)) => *x as u32,
        _ => 0,
    }
}
pub fn xyz(it: &Item, tag: &str) -> [f64; 3] {
    let g = |b: u32| f32::from_bits(b) as f64;
    match it.get(tag) {
        Some(Val::V3(v)) | Some(Val::V3u(v)) => [g(v[0]), g(v[1]), g(v[2])],
        Some(Val::V2(v)) => [g(v[0]), g(v[1]), 0.0],
        _ => [0.0; 3],
    }
}

#[derive(Clone, Debug, Default)]
pub struct Want {
    /// index of the part; none for the playfield
    pub item: Option<usize>,
    pub part: &'static str,
    pub name: String,
    pub shown: bool,
    /// may be left out
    pub may: bool,
    pub at: Option<[Option<f64>; 3]>,
    pub tint: Option<[f64; 4]>,
    pub tex: String,
    pub mat: String,
    pub ball: bool,
    pub below: Option<f64>,
    pub light: bool,
}

pub fn gdf(tb: &Table, tag: &str) -> f64 {
    match tb.gd_get(tag) {
        Some(Val::F32(b)) => f32::from_bits(*b) as f64,
        _ => 0.0,
    }
}
pub fn gds(tb: &Table, tag: &str) -> String {
    match tb.gd_get(tag) {
        Some(Val::Str(x)) | Some(Val::WStr(x)) => x.clone(),
        _ => String::new(),
    }
}

/// The height of the surface a part stands on, if it is beyond doubt.
pub fn surface(tb: &Table, it: &Item) -> Option<f64> {
    let n = s(it, "SURF");
    if n.is_empty() {
        return Some(0.0);
    }
    for o in &tb.items {
        if (o.ty == 0 || o.ty == 12) && o.name().eq_ignore_ascii_case(&n) {
            if o.ty == 0 {
                return Some(f(o, "HTTP"));
            }
            // on a straight ramp, between its ends
            let p = points(o);
            let (lo, hi) = (f(o, "HTBT"), f(o, "HTTP"));
            let c = xyz(it, "VCEN");
            if p.len() == 2 && p[0].z == 0.0 && p[1].z == 0.0 {
                let (a, d) = ([p[0].x as f64, p[0].y as f64], [(p[1].x - p[0].x) as f64, (p[1].y - p[0].y) as f64]);
                let l2 = d[0] * d[0] + d[1] * d[1];
                let k = ((c[0] - a[0]) * d[0] + (c[1] - a[1]) * d[1]) / l2;
                if l2 > 1.0 && (0.001..0.999).contains(&k) {
                    return Some(lo + k * (hi - lo));
                }
            }
            return None;
        }
    }
    Some(0.0)
}

pub fn layer(it: &Item) -> Option<String> {
    match it.get("LANR") {
        Some(Val::Str(n)) if !n.is_empty() => return Some(format!("Layer_{n}")),
        _ => {}
    }
    match it.get("LAYR") {
        Some(Val::U32(n)) => Some(format!("Layer_{}", *n as u64 + 1)),
        _ => None,
    }
}
pub fn is_playfield(it: &Item) -> bool {
    it.ty == 19 && it.name().eq_ignore_ascii_case("playfield_mesh")
}
fn over255(c: [f64; 3], a: f64) -> Option<[f64; 4]> {
    Some([c[0], c[1], c[2], a])
}

/// Everything the export of a table must contain.
pub fn wants(tb: &Table, invisible: bool) -> Vec<Want> {
    let old = tb.version < 1080;
    let mut out = vec![];
    let mut playfield = false;
    let mats = materials(tb);
    let pm = match gds(tb, "PLMA") {
        x if x.is_empty() => "__playfield__".into(),
        x => x,
    };
    for (i, it) in tb.items.iter().enumerate() {
        let n = it.name();
        let c = xyz(it, "VCEN");
        let on = |dz: f64| Some([Some(c[0]), Some(c[1]), surface(tb, it).map(|h| h + dz)]);
        let full = |p: [f64; 3]| Some(p.map(Some));
        let base = Want { item: Some(i), name: n.clone(), mat: s(it, "MATR"), tex: s(it, "IMAG"), ..Want::default() };
        let plain = Want { mat: String::new(), tex: String::new(), ..base.clone() };
        let mut add = |w: Want| {
            if w.shown || invisible || w.may {
                out.push(w);
            }
        };
        match it.ty {
            0 => {
                let below = if let Some(Val::F32(b)) = it.get("DILB") { Some(f32::from_bits(*b) as f64) } else { None };
                add(Want { part: "Top", name: format!("{n}Top"), shown: b(it, "VSBL", true), mat: s(it, "TOMA"), below, ..base.clone() });
                add(Want { part: "Side", name: format!("{n}Side"), shown: b(it, "SVBL", true), mat: s(it, "SIMA"), tex: s(it, "SIMG"), below, ..base.clone() });
            }
            1 => {
                let shown = b(it, "VSBL", true);
                let at = on(0.0);
                add(Want { part: "Base", name: format!("{n}Base"), shown, at, ..base.clone() });
                let thick = match it.get("RTHF") {
                    Some(Val::F32(b)) => f32::from_bits(*b) as f64,
                    _ => e(it, "RTHK") as f64,
                };
                if thick > 0.0 {
                    add(Want { part: "Rubber", name: format!("{n}Rubber"), shown, at, mat: s(it, "RUMA"), ..plain.clone() });
                }
            }
            3 => {
                let shown = b(it, "VSBL", true);
                let at = on(f(it, "ZADJ"));
                let parts: &[&'static str] = if matches!(e(it, "TYPE"), 0 | 2) { &["Flat"] } else { &["Rod", "Spring", "Ring", "Tip"] };
                for p in parts {
                    // a spring without coils or a tip without profile has no surface
                    let may = (*p == "Spring" && f(it, "SPRL") + 2.0 * f(it, "SPRE") < 1.0) || (*p == "Tip" && s(it, "TIPS").matches(';').count() < 1);
                    if may && !shown && !invisible {
                        continue;
                    }
                    add(Want { part: p, name: format!("{n}{p}"), shown, at, may, ..base.clone() });
                }
            }
            5 => {
                for (p, v, m) in [("Base", "BSVS", "BAMA"), ("Socket", "SKVS", "SKMA"), ("Ring", "RIVS", "RIMA"), ("Cap", "CAVI", "MATR")] {
                    let shown = b(it, v, true);
                    if shown || invisible {
                        add(Want { part: p, name: format!("{n}{p}"), shown, may: !shown, at: on(0.0), mat: s(it, m), ..plain.clone() });
                    }
                }
            }
            6 => {
                if e(it, "SHAP") != 0 {
                    add(Want { shown: b(it, "VSBL", true), at: on(0.0), tex: String::new(), ..base });
                }
            }
            7 => {
                if b(it, "BGLS", false) {
                    continue;
                }
                let shown = b(it, "VSBL", true);
                let bulb = b(it, "BULT", false);
                // lights are always exported
                let keep = Want { may: !shown && !invisible, shown, ..plain.clone() };
                if b(it, "SHBM", false) && (!old || (bulb && shown)) {
                    add(Want { part: "_bulb", name: format!("{n}_bulb"), at: on(0.0), tint: Some([1.0, 1.0, 1.0, 0.2]), ..keep.clone() });
                    add(Want { part: "_socket", name: format!("{n}_socket"), at: on(0.0), tint: Some([0.094, 0.094, 0.094, 1.0]), ..keep.clone() });
                }
                if points(it).len() >= 3 {
                    let tex = if bulb { String::new() } else { s(it, "IMG1") };
                    let at = Some([None, None, surface(tb, it).map(|h| h + 0.1)]);
                    add(Want { part: "_insert", name: format!("{n}_insert"), at, tint: over255(color(it.get("COLR")), 0.3), tex, ..keep.clone() });
                }
                if n.to_lowercase().starts_with("gi") {
                    let mut h = match it.get("HGHT") {
                        _ if old => if bulb { f(it, "BHHI") } else { 0.0 },
                        Some(_) => f(it, "HGHT"),
                        None => 0.0,
                    };
                    if h.abs() < 0.001 {
                        h = 10.0 / 0.53975;
                    }
                    out.push(Want { part: "_light", name: format!("{n}_light"), at: on(h), shown: true, light: true, ..plain });
                }
            }
            8 => {
                let ty = e(it, "TYPE");
                if ty == 0 {
                    continue;
                }
                let tint = match ty {
                    2 | 6 => [0.75, 0.75, 0.78, 1.0],
                    1 | 3 => [0.36, 0.25, 0.15, 1.0],
                    4 => [0.72, 0.53, 0.25, 1.0],
                    _ => [0.45, 0.42, 0.40, 1.0],
                };
                let w = Want { shown: true, at: on(0.0), tex: String::new(), ..base };
                add(Want { part: "Plate", name: format!("{n}Plate"), tint: Some([0.02, 0.02, 0.02, 1.0]), ..w.clone() });
                add(Want { part: "Kicker", name: format!("{n}Kicker"), tint: Some(tint), ..w });
            }
            9 => {
                if e(it, "TYPE") == 1 && !b(it, "BGLS", false) && !s(it, "IMAG").is_empty() {
                    add(Want { shown: true, at: on(0.2), ..base });
                }
            }
            10 => {
                let w = Want { shown: b(it, "GVSB", true), at: on(f(it, "HGTH")), tex: String::new(), ..base };
                let bracket = b(it, "GSUP", true);
                if bracket {
                    add(Want { part: "Bracket", name: format!("{n}Bracket"), ..w.clone() });
                } else if invisible {
                    add(Want { part: "Bracket", name: format!("{n}Bracket"), shown: false, may: true, ..w.clone() });
                }
                add(Want { part: "Wire", name: format!("{n}Wire"), ..w });
            }
            11 => {
                let w = Want { shown: b(it, "SVIS", true), at: on(f(it, "HIGH")), ..base };
                let bracket = b(it, "SSUP", true);
                if bracket {
                    add(Want { part: "Bracket", name: format!("{n}Bracket"), mat: String::new(), tex: String::new(), ..w.clone() });
                } else if invisible {
                    add(Want { part: "Bracket", name: format!("{n}Bracket"), shown: false, may: true, mat: String::new(), tex: String::new(), ..w.clone() });
                }
                add(Want { part: "Plate", name: format!("{n}Plate"), tex: s(it, "IMGF"), ..w });
            }
            12 => add(Want { shown: b(it, "RVIS", true), ..base }),
            19 => {
                let pf = is_playfield(it);
                let shown = b(it, "TVIS", true) || (old && pf);
                if !shown && !invisible {
                    continue;
                }
                let mut below = if let Some(Val::F32(b)) = it.get("DILB") { Some(f32::from_bits(*b) as f64) } else { None };
                if old {
                    let m = mats.iter().rev().find(|m| m.name.eq_ignore_ascii_case(&s(it, "MATR")));
                    if pf || (!s(it, "MATR").is_empty() && m.is_some_and(|m| !m.active || m.opacity == 1.0)) {
                        below = Some(1.0);
                    }
                }
                playfield |= pf;
                let (mat, tex) = if pf { (pm.clone(), gds(tb, "IMAG")) } else { (s(it, "MATR"), s(it, "IMAG")) };
                add(Want { shown, at: full(xyz(it, "VPOS")), below, mat, tex, ..plain });
            }
            20 => {
                let a = match it.get("FALP") {
                    Some(Val::I32(a)) => *a as f64 / 100.0,
                    _ => 1.0,
                };
                add(Want { shown: b(it, "FVIS", true), at: Some([None, None, Some(f(it, "FHEI"))]), tint: over255(color(it.get("COLR")), a.clamp(0.0, 1.0)), mat: String::new(), ..base });
            }
            21 => add(Want { shown: b(it, "RVIS", true), at: Some([None, None, Some(f(it, "HTTP"))]), tex: String::new(), ..base }),
            22 => add(Want { shown: b(it, "TVIS", true), at: full(xyz(it, "VPOS")), ..base }),
            23 => {
                let decal = b(it, "DCMD", false) || tb.gd_get("BDMO") == Some(&Val::Bool(true));
                let own = s(it, "DIMG");
                let img = if own.is_empty() { gds(tb, "BLIF") } else { own };
                let mut tint = over255(color(it.get("COLR")), 1.0);
                if tint == Some([1.0; 4]) {
                    tint = Some([0.8, 0.8, 0.8, 1.0]);
                }
                add(Want { shown: true, at: full(c), ball: true, tint, tex: if decal { img } else { String::new() }, mat: String::new(), ..base });
            }
            _ => {}
        }
    }
    if !playfield {
        out.push(Want { name: "playfield_mesh".into(), part: "quad", shown: true, mat: pm, tex: gds(tb, "IMAG"), at: Some([Some(0.0); 3]), ..Want::default() });
    }
    out
}

/// The bytes of an image as stored; None if it has none of its own, Some(None) for a bitmap.
pub fn image_data(tb: &Table, name: &str) -> Option<Option<Vec<u8>>> {
    let im = tb.images.iter().find(|im| matches!(&im[0].val, Val::Str(n) if n.eq_ignore_ascii_case(name)))?;
    for x in im {
        match &x.val {
            Val::Jpeg(recs) => {
                for y in recs {
                    if y.tag == "DATA" {
                        if let Val::Bytes(d) | Val::NoSize(d) = &y.val {
                            return if d.is_empty() { None } else { Some(Some(d.clone())) };
                        }
                    }
                }
            }
            _ if x.tag == "BITS" => return Some(None),
            _ => {}
        }
    }
    None
}

pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

fn check_material(tb: &Table, mats: &BTreeMap<String, Mat>, d: &Doc, w: &Want, n: &Node) -> Res {
    let what = &w.name;
    let m = n.material.map(|i| &d.arr("materials")[i]);
    let img = if w.tex.is_empty() { None } else { image_data(tb, &w.tex) };
    let nul = Value::Null;
    let pbr = m.map(|m| &m["pbrMetallicRoughness"]).unwrap_or(&nul);
    let factor: Vec<f64> = pbr["baseColorFactor"].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect()).unwrap_or(vec![1.0; 4]);
    let texture = pbr["baseColorTexture"]["index"].as_u64();
    match &img {
        Some(data) => {
            let t = texture.ok_or_else(|| format!("{what:?} does not show its image {:?}: {m:?}", w.tex))?;
            let im = d.arr("textures")[t as usize]["source"].as_u64().ok_or("no source")?;
            let im = &d.arr("images")[im as usize];
            ensure!(im["name"].as_str().is_some_and(|x| x.eq_ignore_ascii_case(&w.tex)), "{what:?} shows the image {} instead of {:?}", im["name"], w.tex);
            let got = d.view(im["bufferView"].as_u64().ok_or("no bufferView")? as usize)?;
            match data {
                Some(want) => ensure!(got == &want[..], "image {:?} is embedded as {} bytes, it has {}", w.tex, got.len(), want.len()),
                None => {
                    crate::pixx::read_png(got).map_err(|e| format!("image {:?}: {e}", w.tex))?;
                }
            }
        }
        None => ensure!(texture.is_none(), "{what:?} shows an image, it has none ({:?}): {m:?}", w.tex),
    }
    let mat = mats.get(&w.mat).filter(|m| !m.name.is_empty());
    if let Some(t) = w.tint {
        ensure!(m.is_some(), "{what:?} has no material");
        for k in 0..4 {
            ensure!(near(factor[k], t[k], 1e-3), "{what:?} is coloured {factor:?}, expected {t:?}");
        }
        if w.ball {
            ensure!(near(pbr["metallicFactor"].as_f64().unwrap_or(1.0), 1.0, 1e-5), "{what:?} is not metal");
        }
        return Ok(());
    }
    let Some(mat) = mat else {
        ensure!(factor == vec![1.0; 4], "{what:?} without material {:?} is coloured {factor:?}", w.mat);
        return Ok(());
    };
    ensure!(m.is_some(), "{what:?} has no material, the table gives it {:?} and image {:?}", w.mat, w.tex);
    let white = mat.rgb.iter().all(|x| *x >= 0.99);
    for k in 0..3 {
        // with an image, a nearly white material may count as white
        let ok = near(factor[k], mat.rgb[k], 1e-4) || (img.is_some() && white && factor[k] == 1.0);
        ensure!(ok, "{what:?} is coloured {factor:?}, its material {:?} is {:?}", w.mat, mat.rgb);
    }
    let a = if mat.active { mat.opacity } else { 1.0 };
    if img.is_none() || !white {
        ensure!(near(factor[3], a, 1e-4), "{what:?} has opacity {}, its material {:?} has {a}", factor[3], w.mat);
        let blend = m.unwrap()["alphaMode"] == "BLEND";
        if a < 0.99 {
            ensure!(blend, "{what:?} is not blended, its material {:?} has opacity {a}", w.mat);
        }
        if img.is_none() && !mat.active {
            ensure!(!blend, "{what:?} is blended, its material {:?} is opaque", w.mat);
        }
        ensure!(near(pbr["metallicFactor"].as_f64().unwrap_or(1.0), mat.metal as u32 as f64, 1e-5), "{what:?} has metal {}, its material {:?} {}", pbr["metallicFactor"], w.mat, mat.metal);
        if !w.name.eq_ignore_ascii_case("playfield_mesh") {
            ensure!(near(pbr["roughnessFactor"].as_f64().unwrap_or(1.0), 1.0 - mat.rough, 1e-4), "{what:?} has roughness {}, its material {:?} is {} shiny", pbr["roughnessFactor"], w.mat, mat.rough);
        }
    }
    Ok(())
}

/// Light shining through from below.
fn check_transmission(d: &Doc, w: &Want, n: &Node, textured: bool) -> Res {
    if w.tint.is_some() || w.ball {
        return Ok(());
    }
    let got = n.material.map(|i| d.arr("materials")[i]["extensions"]["KHR_materials_transmission"]["transmissionFactor"].as_f64().unwrap_or(0.0)).unwrap_or(0.0);
    match w.below {
        Some(x) if x < 1.0 => {
            let want = (1.0 - x.clamp(0.0, 1.0)) * 0.3 * if textured { 0.3 } else { 1.0 };
            ensure!(near(got, want, 1e-5), "{:?} lets {got} through, expected {want}", w.name);
        }
        _ => ensure!(got == 0.0, "{:?} lets {got} through, it is opaque from below", w.name),
    }
    Ok(())
}

pub struct World {
    pub wants: Vec<Want>,
    pub nodes: Vec<Node>,
    /// node of every want
    pub of: Vec<Option<usize>>,
}
/// Matches the nodes of a document with what the table must show.
pub fn matched(tb: &Table, d: &Doc, unit: f64, invisible: bool) -> Result<World, String> {
    let wants = wants(tb, invisible);
    let nodes = world::nodes(d, unit)?;
    let mut free: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (i, n) in nodes.iter().enumerate() {
        if n.mesh.is_some() || (n.light.is_some() && n.name != "TableLight0" && n.name != "TableLight1") {
            free.entry(&n.name).or_default().push(i);
        }
    }
    let mut of = vec![];
    for w in &wants {
        let f = free.get_mut(w.name.as_str());
        let i = match f {
            Some(v) if !v.is_empty() => Some(v.remove(0)),
            _ => None,
        };
        ensure!(i.is_some() || w.may, "{:?} is missing", w.name);
        of.push(i);
    }
    for (k, v) in &free {
        ensure!(v.is_empty(), "{k:?} appears although the table does not show it");
    }
    Ok(World { wants, nodes, of })
}

/// A table of parts with surfaces, images and materials.
pub fn table(t: &mut Tape, max: usize) -> Table {
    let n = t.usize(0, max);
    let mut items: Vec<Item> = vec![];
    for i in 0..n {
        let ty = if t.chance(1, 4) { *t.pick(&[0u32, 12]) } else { *t.pick(&SHAPES_AND_BALL) };
        items.push(part(t, i, ty));
    }
    if t.chance(1, 6) {
        if let Some(p) = items.iter_mut().find(|p| p.ty == 19) {
            let n = *t.pick(&["playfield_mesh", "Playfield_Mesh"]);
            p.set("NAME", Val::WStr(n.into()));
        }
    }
    let mut tb = base(t, items);
    tb.images.clear();
    tb.sounds.clear();
    let k = t.usize(0, 3);
    for i in 0..k {
        let im = gen_image(t, &Prof { images_decodable: true, unique_names: true, weird_names: false, ..Prof::default() }, i);
        tb.images.push(im);
    }
    tb.fix_counts();
    link(t, &mut tb);
    tb
}
/// Materials by name, the last of a name counting.
pub fn by_name(tb: &Table) -> BTreeMap<String, Mat> {
    materials(tb).into_iter().map(|m| (m.name.clone(), m)).collect()
}
fn unique(tb: &Table) -> bool {
    let mut names = std::collections::BTreeSet::new();
    let imgs: Vec<String> = tb.images.iter().map(|im| if let Val::Str(s) = &im[0].val { s.to_lowercase() } else { String::new() }).collect();
    let mats: Vec<String> = materials(tb).iter().map(|m| m.name.to_lowercase()).collect();
    (0..mats.len()).all(|i| !mats[..i].contains(&mats[i])) && wants(tb, true).iter().all(|w| names.insert(w.name.clone())) && (0..imgs.len()).all(|i| !imgs[..i].contains(&imgs[i]))
}

fn structure(tb: &Table, d: &Doc, w: &World, unit: f64) -> Res {
    let mats = by_name(tb);
    let root = match gds(tb, "NAME") {
        x if x.is_empty() => "Table".to_string(),
        x => x,
    };
    ensure!(w.nodes[0].name == root && w.nodes.iter().skip(1).all(|n| n.above.first() == Some(&root)), "the scene is below {:?}, the table is {root:?}", w.nodes[0].name);
    let mut count: BTreeMap<Option<usize>, usize> = BTreeMap::new();
    for (x, i) in w.wants.iter().zip(&w.of) {
        if i.is_some() {
            *count.entry(x.item).or_default() += 1;
        }
    }
    for (x, i) in w.wants.iter().zip(&w.of) {
        let Some(i) = *i else { continue };
        let n = &w.nodes[i];
        ensure!(n.shown == x.shown, "{:?} is {}, the table has it {}", x.name, if n.shown { "shown" } else { "hidden" }, if x.shown { "shown" } else { "hidden" });
        let mut above = vec![root.clone()];
        if let Some(k) = x.item {
            above.extend(layer(&tb.items[k]));
            if count[&x.item] > 1 {
                above.push(tb.items[k].name());
            }
        }
        ensure!(n.above == above, "{:?} is below {:?}, expected {above:?}", x.name, n.above);
        if let Some(at) = x.at {
            for k in 0..3 {
                if let Some(p) = at[k] {
                    ensure!(near(n.at[k], p, 2e-3), "{:?} stands at {:?}, expected {at:?}", x.name, n.at);
                }
            }
        }
        if x.light {
            ensure!(n.light.is_some(), "{:?} is no light", x.name);
            let l = &d.json["extensions"]["KHR_lights_punctual"]["lights"][n.light.unwrap()];
            let it = &tb.items[x.item.unwrap()];
            let c = color(it.get("COLR"));
            for k in 0..3 {
                ensure!(near(l["color"][k].as_f64().unwrap_or(1.0), c[k], 1e-5), "{:?} shines {}, its colour is {c:?}", x.name, l["color"]);
            }
            let p = xyz(it, "VCEN");
            let far = points(it).iter().map(|q| ((q.x as f64 - p[0]).powi(2) + (q.y as f64 - p[1]).powi(2)).sqrt()).fold(0.0, f64::max);
            let range = if points(it).is_empty() { f(it, "RADI") } else { far } * unit;
            if range > 0.0 {
                ensure!(near(l["range"].as_f64().unwrap_or(0.0), range, 1e-4 * range), "{:?} reaches {}, expected {range}", x.name, l["range"]);
            }
            continue;
        }
        check_material(tb, &mats, d, x, n)?;
        let textured = !x.tex.is_empty() && image_data(tb, &x.tex).is_some();
        check_transmission(d, x, n, textured)?;
    }
    // the playfield and the lights above it
    let (l, tp, r, bt) = (gdf(tb, "LEFT"), gdf(tb, "TOPX"), gdf(tb, "RGHT"), gdf(tb, "BOTM"));
    for (x, i) in w.wants.iter().zip(&w.of) {
        if x.item.is_none() {
            let m = w.nodes[i.unwrap()].mesh.as_ref().unwrap();
            stock::quad(m, [[l, tp, 0.0], [r, tp, 0.0], [l, bt, 0.0], [r, bt, 0.0]], [0.0, 0.0, 1.0]).map_err(|e| format!("playfield: {e}"))?;
        }
    }
    for (k, name) in ["TableLight0", "TableLight1"].iter().enumerate() {
        let n: Vec<&Node> = w.nodes.iter().filter(|n| n.light == Some(k)).collect();
        ensure!(n.len() == 1 && n[0].name == *name && n[0].above.len() == 1, "{name} is at {:?}", n);
        let want = [(l + r) / 2.0, bt * (k + 1) as f64 / 3.0, gdf(tb, "LZHI")];
        for c in 0..3 {
            ensure!(near(n[0].at[c], want[c], 2e-3), "{name} is at {:?}, expected {want:?}", n[0].at);
        }
        let j = &d.json["extensions"]["KHR_lights_punctual"]["lights"][k];
        let range = (gdf(tb, "LZRA") * unit).min(100.0);
        ensure!(near(j["range"].as_f64().unwrap_or(0.0), range, 1e-4 * range), "{name} reaches {}, expected {range}", j["range"]);
    }
    ensure!(w.nodes.iter().filter(|n| n.camera.is_some()).count() == 3, "{} cameras", w.nodes.iter().filter(|n| n.camera.is_some()).count());
    Ok(())
}

fn set_classes(tb: &Table, c: &mut Case, w: &World) {
    classes(tb, c);
    c.class_if(w.wants.iter().any(|x| !x.tex.is_empty() && image_data(tb, &x.tex).is_some()), "shown image");
    c.class_if(w.wants.iter().any(|x| !x.tex.is_empty() && image_data(tb, &x.tex).is_none()), "missing image");
    c.class_if(w.wants.iter().any(|x| x.item.is_some() && by_name(tb).contains_key(&x.mat)), "material in use");
    c.class_if(w.wants.iter().any(|x| !x.shown), "invisible part");
    c.class_if(tb.items.iter().any(|x| !s(x, "SURF").is_empty()), "on a surface");
    c.class_if(w.wants.iter().any(|x| x.item.is_none()), "implicit playfield");
    c.class_if(w.wants.iter().any(|x| x.light), "GI light");
}

fn documents(t: &mut Tape, c: &mut Case) -> Res {
    let tb = table(t, 7);
    if !unique(&tb) {
        c.exclude("a name appears twice");
        return Ok(());
    }
    let unit = t.usize(0, 3);
    let invisible = t.bool();
    c.sample = Some(summary(&tb));
    c.hash = crate::wire::streams_hash(&tb.streams());
    let streams = tb.streams();
    let v = parse(&streams)?;
    let a = glb(&v, unit, invisible)?;
    let d = Doc::from_glb(&a).map_err(|e| format!("GLB: {e}"))?;
    let w = matched(&tb, &d, UNITS[unit].1, invisible)?;
    set_classes(&tb, c, &w);
    c.nontrivial = w.wants.len() > 1;
    structure(&tb, &d, &w, UNITS[unit].1)?;
    // once more, from the file again, into both containers
    let v2 = parse(&streams)?;
    ensure!(glb(&v2, unit, invisible)? == a, "a second export differs");
    let files = gltf(&v2, unit, invisible)?;
    let g = gltf_doc(&files).map_err(|e| format!("glTF: {e}"))?;
    let (mut x, mut y) = (d.json.clone(), g.json.clone());
    for j in [&mut x, &mut y] {
        for bf in j["buffers"].as_array_mut().ok_or("no buffers")? {
            bf.as_object_mut().unwrap().remove("uri");
        }
    }
    ensure!(x == y, "GLB and glTF describe different scenes");
    let n = d.json["buffers"][0]["byteLength"].as_u64().unwrap_or(0) as usize;
    ensure!(d.bufs.len() == g.bufs.len() && d.bufs[0][..n] == g.bufs[0][..n], "GLB and glTF hold different data");
    // another unit scales everything
    let u2 = (unit + t.usize(1, 3)) % 4;
    let d2 = Doc::from_glb(&glb(&v, u2, invisible)?).map_err(|e| format!("GLB: {e}"))?;
    let w2 = matched(&tb, &d2, UNITS[u2].1, invisible)?;
    for (p, q) in w.nodes.iter().zip(&w2.nodes) {
        ensure!(p.name == q.name && p.shown == q.shown, "the unit changes {:?} to {:?}", p.name, q.name);
        for k in 0..3 {
            ensure!(near(p.at[k], q.at[k], 2e-3 + 1e-6 * p.at[k].abs()), "the unit moves {:?} from {:?} to {:?}", p.name, p.at, q.at);
        }
        if let (Some(m), Some(n)) = (&p.mesh, &q.mesh) {
            ensure!(m.tri == n.tri && m.pos.len() == n.pos.len(), "the unit changes the mesh of {:?}", p.name);
            for (a, b) in m.pos.iter().zip(&n.pos) {
                for k in 0..3 {
                    ensure!(near(a[k], b[k], 3e-3), "the unit changes {:?}: {a:?} to {b:?}", p.name);
                }
            }
        }
    }
    Ok(())
}

fn shapes(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 3);
    let mut items = vec![];
    for i in 0..n {
        let ty = *t.pick(&SHAPES_AND_BALL);
        items.push(part(t, i, ty));
    }
    let mut tb = base(t, items);
    tb.images.clear();
    tb.sounds.clear();
    tb.fix_counts();
    link(t, &mut tb);
    if !unique(&tb) {
        c.exclude("a name appears twice");
        return Ok(());
    }
    c.sample = Some(summary(&tb));
    c.hash = crate::wire::streams_hash(&tb.streams());
    let v = parse(&tb.streams())?;
    let d = Doc::from_glb(&glb(&v, 0, true)?).map_err(|e| format!("GLB: {e}"))?;
    let w = matched(&tb, &d, 1.0, true)?;
    set_classes(&tb, c, &w);
    c.nontrivial = false;
    for (x, i) in w.wants.iter().zip(&w.of) {
        let (Some(i), Some(k)) = (*i, x.item) else { continue };
        let node = &w.nodes[i];
        let Some(m) = &node.mesh else { continue };
        c.nontrivial |= stock::check(&tb.items[k], x.part, node.at, m).map_err(|e| format!("{:?}: {e}", x.name))?;
    }
    Ok(())
}

/// Meshes around the size where two bytes are too small for an index.
fn wide(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 3);
    let mut items = vec![];
    let mut want: Vec<(String, Vec<[f64; 3]>, Vec<[usize; 3]>)> = vec![];
    let wide_one = t.usize(0, n - 1);
    let mut sizes = vec![];
    for i in 0..n {
        let mut it = part(t, i, 19);
        let nv = if i == wide_one { *t.pick(&[65534usize, 65535, 65536, 65537, 66000, 70001, 131073]) } else { t.usize(3, 40) };
        sizes.push(nv);
        let (w, key) = (t.usize(2, 600), t.any());
        let mut m = MeshM::default();
        for k in 0..nv {
            let p = [(k % w) as f32 * 0.5 - 20.0, (k / w) as f32 * 0.25 - 7.0, ((k * 7) % 13) as f32 * 0.5];
            m.verts.push([p[0].to_bits(), p[1].to_bits(), p[2].to_bits(), 0, 0, 1f32.to_bits(), 0, 0.5f32.to_bits()]);
        }
        // first, last and anywhere
        let mut at = key;
        for k in 0..t.usize(1, 60) {
            for j in 0..3usize {
                at = crate::tape::mix(at.wrapping_add(j as u64 + 1));
                m.idx.push(if k == 0 { [0, nv - 1, nv / 2][j] as u32 } else { (at % nv as u64) as u32 });
            }
        }
        it.recs.retain(|r| !r.tag.starts_with("M3"));
        it.recs.extend(m.recs());
        for tag in ["RTV0", "RTV1", "RTV2", "RTV3", "RTV4", "RTV5", "RTV6", "RTV7", "RTV8"] {
            it.set_f(tag, 0.0);
        }
        it.set("NAME", Val::WStr(format!("Mesh{i}")));
        it.set("U3DM", Val::Bool(true));
        let (k, o) = (xyz(&it, "VSIZ"), xyz(&it, "VPOS"));
        let pos = m.verts.iter().map(|v| std::array::from_fn(|a| f32::from_bits(v[a]) as f64 * k[a] + o[a])).collect();
        let tri = m.idx.chunks_exact(3).map(|x| [x[0] as usize, x[1] as usize, x[2] as usize]).collect();
        want.push((format!("Mesh{i}"), pos, tri));
        items.push(it);
    }
    let mut tb = base(t, items);
    tb.images.clear();
    tb.sounds.clear();
    tb.fix_counts();
    link(t, &mut tb);
    c.hash = crate::wire::streams_hash(&tb.streams());
    c.sample = Some(serde_json::json!({"vertices": sizes}));
    c.nontrivial = true;
    c.class(if sizes[wide_one] > 65535 { "more than 65535 vertices" } else { "up to 65535 vertices" });
    c.class_if(n > 1, "with small meshes");
    let v = parse(&tb.streams())?;
    let unit = t.usize(0, 3);
    let docs = if t.bool() { ("GLB", Doc::from_glb(&glb(&v, unit, true)?)) } else { ("glTF", gltf_doc(&gltf(&v, unit, true)?)) };
    c.class(docs.0);
    let d = docs.1.map_err(|e| format!("{}: {e}", docs.0))?;
    let w = matched(&tb, &d, UNITS[unit].1, true)?;
    for (name, pos, tri) in &want {
        let Some(node) = w.nodes.iter().find(|n| n.name == *name) else { return Err(format!("no {name}")) };
        let m = node.mesh.as_ref().ok_or(format!("{name} has no mesh"))?;
        ensure!(m.pos.len() == pos.len(), "{name} has {} vertices of {}", m.pos.len(), pos.len());
        ensure!(m.tri.len() == tri.len(), "{name} has {} triangles of {}", m.tri.len(), tri.len());
        for (i, (a, b)) in m.pos.iter().zip(pos).enumerate() {
            let tol = 6e-3 + 4e-6 * b.iter().fold(0.0f64, |a, x| a.max(x.abs()));
            ensure!((0..3).all(|k| near(a[k], b[k], tol)), "vertex {i} of {} of {name} is at {a:?}, expected {b:?}", pos.len());
        }
        for (i, (a, b)) in m.tri.iter().zip(tri).enumerate() {
            ensure!((0..3).any(|k| [a[k], a[(k + 1) % 3], a[(k + 2) % 3]] == *b), "triangle {i} of {name} ({} vertices) is {a:?}, expected {b:?}", pos.len());
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("built-in shapes are compared with signatures recorded from the library's own shape data; walls, ramps, rubbers and flashers are compared with models under P16".into());
    ctx.assumptions.push("tables where two parts, images or materials share a name are left out; of a table with several, which one counts is not promised".into());
    ctx.sub("documents", ctx.n(10000, 300000), "at least one part beside the playfield; distinct by table contents", documents);
    ctx.sub("shapes", ctx.n(15000, 500000), "a part whose vertices are predicted; distinct by table contents", shapes);
    ctx.sub("wide meshes", ctx.n(160, 3000), "always; a mesh of 65534 to 131073 vertices; distinct by table contents", wide);
    ctx.sub("stock shapes", 1, "all built-in shapes in one case", stock::golden);
}
