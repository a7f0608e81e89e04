//! P19: whole-table exports to Wavefront OBJ.

use crate::engine::*;
use crate::ensure;
use crate::exp::parse;
use crate::gltfx::Doc;
use crate::objx::{self, Mtl, Obj, Object};
use crate::p01::summary;
use crate::p18::{UNITS, b, glb, gds, image_data, is_playfield, matched, near, s};
use crate::scene::*;
use crate::stock;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use crate::world::Mesh;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use vpin::filesystem::MemoryFileSystem;
use vpin::vpx::VPX;
use vpin::vpx::export::obj_export::{ObjExportOptions, export_obj};

type Files = BTreeMap<String, Vec<u8>>;

struct How {
    dedup: bool,
    textures: bool,
    unit: usize,
    plunger: bool,
    path: &'static str,
}
impl How {
    fn gen_how(t: &mut Tape) -> How {
        let k = t.below(6);
        let (dedup, textures, unit, plunger) = match k {
            0 => (true, true, 3, true),
            1 => (false, false, 0, false),
            _ => (t.bool(), t.bool(), t.usize(0, 3), t.bool()),
        };
        How { dedup, textures, unit, plunger, path: *t.pick(&["/o/x.obj", "/o/x.obj", "/o/My Table (v1.2).obj", "/o/X.OBJ"]) }
    }
    fn mtl(&self) -> String {
        format!("{}.mtl", self.path.rsplit_once('.').unwrap().0)
    }
}
fn export(v: &VPX, h: &How) -> Result<Files, String> {
    let fs = MemoryFileSystem::default();
    let o = ObjExportOptions { dedup_mtl_blocks: h.dedup, extract_textures: h.textures, units: UNITS[h.unit].0, include_plunger: h.plunger };
    guard(|| export_obj(v, Path::new(h.path), &fs, &o))?.map_err(|e| format!("exporting OBJ: {e}"))?;
    Ok(fs.list_files().into_iter().map(|n| (n.clone(), fs.get_file(&n).unwrap_or_default())).collect())
}

/// A name as it can appear on one line.
fn line(n: &str) -> String {
    n.replace(char::is_control, " ").trim_ascii().to_string()
}
/// A name as it can appear as a material's.
fn solid(n: &str) -> String {
    n.replace(char::is_control, " ").replace(' ', "")
}

/// An object the export must contain.
struct Show<'a> {
    name: String,
    /// parts of the scene, one after the other
    mesh: Vec<&'a Mesh>,
    /// around this point the shape stays at its own size, documented as what VPinball does
    plain: Option<([f64; 3], f64)>,
    mat: Option<String>,
    tex: String,
}

fn lookup(tb: &Table, name: &str) -> Option<Mat> {
    if name.is_empty() {
        return None;
    }
    let mut all = if tb.gd.iter().any(|x| x.tag == "MATR") { materials(tb) } else { vec![] };
    all.extend(old_materials(tb));
    all.into_iter().find(|m| m.name.eq_ignore_ascii_case(name))
}

/// Everything the OBJ export of a table must contain.
fn shows<'a>(tb: &Table, w: &'a crate::p18::World, quad: &'a Mesh, h: &How) -> Vec<Show<'a>> {
    let mut out = vec![Show { name: line(&gds(tb, "NAME")), mesh: vec![quad], plain: None, mat: Some(gds(tb, "PLMA")), tex: gds(tb, "IMAG") }];
    let mut parts: BTreeMap<usize, Vec<(usize, &'a Mesh)>> = BTreeMap::new();
    for (k, (x, i)) in w.wants.iter().zip(&w.of).enumerate() {
        if let (Some(it), Some(m)) = (x.item, i.and_then(|i| w.nodes[i].mesh.as_ref())) {
            parts.entry(it).or_default().push((k, m));
        }
    }
    for (i, it) in tb.items.iter().enumerate() {
        let Some(ps) = parts.get(&i) else { continue };
        let n = it.name();
        let mut add = |name: String, mesh: Vec<&'a Mesh>, mat: Option<String>, tex: String| {
            // the wire of a gate
            let plain = if it.ty == 10 && name.ends_with("Wire") { ps.last().map(|(k, _)| (w.nodes[w.of[*k].unwrap()].at, it.f("LGTH") as f64)) } else { None };
            if !mesh.iter().any(|m| m.pos.is_empty() || m.tri.is_empty()) {
                out.push(Show { name: line(&name), mesh, plain, mat, tex });
            }
        };
        if it.ty == 0 {
            let get = |p: &str| ps.iter().find(|(k, _)| w.wants[*k].part == p).map(|x| x.1);
            let (Some(top), Some(side)) = (get("Top"), get("Side")) else { continue };
            match (b(it, "VSBL", true), b(it, "SVBL", true)) {
                (true, false) => {
                    let img = s(it, "IMAG");
                    add(n, vec![top], Some(if img.is_empty() { "none".into() } else { img.clone() }), img);
                }
                (false, true) => add(n, vec![side], Some(s(it, "SIMA")), s(it, "SIMG")),
                (true, true) if h.textures => {
                    add(format!("{n}Side"), vec![side], Some(s(it, "SIMA")), s(it, "SIMG"));
                    add(format!("{n}Top"), vec![top], Some(s(it, "TOMA")), s(it, "IMAG"));
                }
                (true, true) => add(n, vec![side, top], Some(s(it, "TOMA")), String::new()),
                _ => {}
            }
            continue;
        }
        for (k, m) in ps {
            let x = &w.wants[*k];
            let keep = match it.ty {
                1 | 22 | 8 => true,
                10 => x.part == "Wire" || b(it, "GSUP", true),
                11 => x.part == "Plate" || b(it, "SSUP", true),
                3 => h.plunger && x.shown,
                5 | 6 | 12 | 19 | 21 => x.shown,
                _ => false,
            };
            if !keep {
                continue;
            }
            let (mat, tex) = match it.ty {
                19 if is_playfield(it) => (Some(gds(tb, "PLMA")), gds(tb, "IMAG")),
                // these two are shown in what the part before them is
                5 if x.part == "Ring" => (None, String::new()),
                11 if x.part == "Plate" => (None, String::new()),
                10 | 11 | 8 | 6 | 21 | 5 => (Some(x.mat.clone()), String::new()),
                _ => (Some(x.mat.clone()), x.tex.clone()),
            };
            let mat = if it.ty == 11 && x.part == "Bracket" { Some(s(it, "MATR")) } else { mat };
            let suffix = match (it.ty, x.part) {
                (5, "Socket") => "Skirt",
                (8, "Kicker") => "",
                (_, p) => p,
            };
            add(format!("{n}{suffix}"), vec![m], mat, tex);
        }
    }
    out
}

/// How many positions, texture coordinates and normals an object has.
fn counts(o: &Obj, k: usize) -> ([usize; 3], [usize; 3]) {
    let first = o.objects[k].first;
    let end = o.objects.get(k + 1).map_or([o.v.len(), o.vt.len(), o.vn.len()], |x| x.first);
    (first, end)
}
fn turned(f: [usize; 3]) -> [usize; 3] {
    let k = (0..3).min_by_key(|k| f[*k]).unwrap();
    [f[k], f[(k + 1) % 3], f[(k + 2) % 3]]
}

fn geometry(o: &Obj, k: usize, show: &Show, unit: f64) -> Res {
    let want = &show.mesh;
    let (a, z) = counts(o, k);
    let n: usize = want.iter().map(|m| m.pos.len()).sum();
    for i in 0..3 {
        ensure!(z[i] - a[i] == n && a[i] == a[0], "{} entries of kind {i}, expected {n}", z[i] - a[i]);
    }
    let mut i = a[0];
    let mut faces = vec![];
    for m in want {
        let first = i - a[0];
        for j in 0..m.pos.len() {
            let (p, t, q) = (o.v[i], o.vt[i], o.vn[i]);
            let (wp, wt, wq) = (m.pos[j], m.uv[j], m.nrm[j]);
            let wp = match show.plain {
                Some((c, l)) => [0, 1, 2].map(|k| c[k] + (wp[k] - c[k]) / l),
                None => wp,
            };
            let wp = [wp[0] * unit, wp[1] * unit, -wp[2] * unit];
            let wq = [wq[0], wq[1], -wq[2]];
            for k in 0..3 {
                ensure!(near(p[k], wp[k], 4e-3 * unit + 1e-6 * wp[k].abs()), "vertex {j} is at {p:?}, expected {wp:?}");
                ensure!(near(q[k], wq[k], 2e-3), "normal {j} is {q:?}, expected {wq:?}");
            }
            ensure!(near(t[0], wt[0], 1e-5 * (1.0 + wt[0].abs())) && near(t[1], 1.0 - wt[1], 1e-5 * (1.0 + wt[1].abs())), "texture coordinate {j} is {t:?}, expected {:?}", [wt[0], 1.0 - wt[1]]);
            i += 1;
        }
        faces.extend(m.tri.iter().map(|t| turned([t[2] + first, t[1] + first, t[0] + first])));
    }
    let got = &o.objects[k].faces;
    ensure!(got.len() == faces.len(), "{} faces, expected {}", got.len(), faces.len());
    for (j, ((_, c), w)) in got.iter().zip(&faces).enumerate() {
        ensure!(c.len() == 3, "face {j} has {} corners", c.len());
        ensure!(c.iter().all(|x| x.1 == Some(x.0) && x.2 == Some(x.0)), "face {j} is {c:?}");
        ensure!(c.iter().all(|x| x.0 >= a[0] && x.0 < z[0]), "face {j} uses vertices of another object");
        let f = turned([c[0].0 - a[0], c[1].0 - a[0], c[2].0 - a[0]]);
        ensure!(f == *w, "face {j} is {f:?}, expected {w:?}");
    }
    Ok(())
}

/// Whether a material block is what a material asks for.
fn block(tb: &Table, m: &Mtl, mat: &str) -> Res {
    let get = |k: &str| m.nums.get(k).cloned().ok_or(format!("no {k}"));
    let (kd, ks, d) = match lookup(tb, mat) {
        Some(x) => (x.rgb, if x.metal { x.rgb } else { x.gloss }, if x.active { x.opacity } else { 1.0 }),
        None => ([1.0; 3], [0.0; 3], 1.0),
    };
    for (k, want) in [("Kd", kd.to_vec()), ("Ks", ks.to_vec()), ("d", vec![d]), ("Ka", vec![0.0; 3])] {
        let got = get(k)?;
        ensure!((0..want.len()).all(|i| near(got[i], want[i], 1e-5)), "{k} is {got:?}, expected {want:?}");
    }
    Ok(())
}

fn unique(tb: &Table, names: &[String]) -> bool {
    let imgs: Vec<String> = tb.images.iter().map(|im| if let Val::Str(s) = &im[0].val { s.to_lowercase() } else { String::new() }).collect();
    let has = tb.gd.iter().any(|x| x.tag == "MATR");
    let one = |v: Vec<Mat>| {
        let v: Vec<String> = v.iter().map(|m| m.name.to_lowercase()).collect();
        (0..v.len()).all(|i| !v[..i].contains(&v[i]))
    };
    let mut seen = BTreeSet::new();
    one(old_materials(tb)) && (!has || one(materials(tb))) && (0..imgs.len()).all(|i| !imgs[..i].contains(&imgs[i])) && names.iter().all(|n| seen.insert(n.clone()))
}

/// Difficult names for parts, images and materials.
fn rename(t: &mut Tape, tb: &mut Table) {
    let n = tb.items.len();
    for i in 0..n {
        if t.chance(1, 2) {
            let s = match t.below(3) {
                0 => t.pick(NASTY).to_string(),
                1 => gen_wide(t),
                _ => "x".repeat(t.usize(1, 300)),
            };
            let s: String = s.chars().filter(|c| !c.is_control() || *c == '\n').collect();
            tb.items[i].set("NAME", Val::WStr(format!("{s}{i}")));
        }
    }
    let latin = |s: String| -> String { s.chars().filter(|c| (*c as u32) < 256).collect() };
    for im in tb.images.iter_mut() {
        if t.chance(1, 2) {
            let s = if t.bool() { t.pick(NASTY).to_string() } else { "y".repeat(t.usize(1, 300)) };
            im[0].val = Val::Str(latin(s));
        }
        // the type of TGA data can only be told from the name
        let told = im.iter().any(|x| matches!(&x.val, Val::Jpeg(j) if j.iter().any(|y| matches!(&y.val, Val::Bytes(d) if y.tag == "DATA" && image::guess_format(d).is_ok()))) || x.tag == "BITS");
        if told && t.chance(1, 6) {
            let ext = t.pick(&["p/g", "png ", "..", "a:b", "", "p\\n", "\u{e9}x"]).to_string();
            if let Some(x) = im.iter_mut().find(|x| x.tag == "PATH") {
                x.val = Val::Str(format!("C:\\a\\b.{ext}"));
            }
        }
    }
    for x in tb.gd.iter_mut() {
        if let ("MATR", Val::Nested(m, _)) = (x.tag, &mut x.val) {
            if let Some(y) = m.iter_mut().find(|y| y.tag == "NAME") {
                if t.chance(1, 3) {
                    let s = t.pick(&["a b", "ab", "a\nb", "a__b", "A B", " ab", "ab_dedup1", "#x", "none", "\u{e9}", "x\ty"]).to_string();
                    y.val = Val::Str(s);
                }
            }
        }
    }
    derive_legacy_tables(tb);
}

fn documents(t: &mut Tape, c: &mut Case) -> Res {
    let mut tb = crate::p18::table(t, 6);
    if t.chance(1, 2) {
        rename(t, &mut tb);
        link(t, &mut tb);
        c.class("difficult names");
    }
    let h = How::gen_how(t);
    c.sample = Some(json!({"table": summary(&tb), "dedup": h.dedup, "textures": h.textures, "unit": h.unit, "plunger": h.plunger}));
    c.hash = streams_hash(&tb.streams());
    let v = parse(&tb.streams())?;
    if !unique(&tb, &crate::p18::wants(&tb, true).into_iter().map(|w| w.name).collect::<Vec<_>>()) {
        c.exclude("a name appears twice");
        return Ok(());
    }
    // the same table as a scene
    let d = Doc::from_glb(&glb(&v, 0, true)?).map_err(|e| format!("GLB: {e}"))?;
    let w = matched(&tb, &d, 1.0, true)?;
    let edge = |tag: &str| crate::p18::gdf(&tb, tag);
    let (l, tp, r, bt) = (edge("LEFT"), edge("TOPX"), edge("RGHT"), edge("BOTM"));
    let quad = Mesh::default();
    let shows = shows(&tb, &w, &quad, &h);
    if !unique(&tb, &shows.iter().map(|x| x.name.clone()).collect::<Vec<_>>()) {
        c.exclude("an object's name appears twice");
        return Ok(());
    }
    let files = export(&v, &h)?;
    let unit = UNITS[h.unit].1;
    let get = |n: &str| files.get(n).ok_or(format!("no file {n:?}, there are {:?}", files.keys()));
    let o = objx::parse(get(h.path)?).map_err(|e| format!("OBJ: {e}"))?;
    let mtl = objx::parse_mtl_blocks(get(&h.mtl())?).map_err(|e| format!("MTL: {e}"))?;
    let mtl_name = h.mtl()[3..].to_string();
    ensure!(o.mtllib == vec![mtl_name.clone()], "the OBJ names the material files {:?}, expected {mtl_name:?}", o.mtllib);
    // objects
    let mut want: BTreeMap<&str, &Show> = shows.iter().map(|x| (x.name.as_str(), x)).collect();
    let mut used: BTreeSet<&str> = BTreeSet::new();
    for (k, ob) in o.objects.iter().enumerate() {
        let x = want.remove(ob.name.as_str()).ok_or(format!("object {:?} appears, the table does not show it", ob.name))?;
        let what = |e: String| format!("object {:?}: {e}", ob.name);
        if std::ptr::eq(x.mesh[0], &quad) {
            playfield(&o, k, [l, tp, r, bt], unit).map_err(what)?;
        } else {
            geometry(&o, k, x, unit).map_err(what)?;
        }
        let names: BTreeSet<_> = ob.faces.iter().map(|f| f.0.as_deref()).collect();
        ensure!(names.len() == 1, "object {:?} has the materials {names:?}", ob.name);
        let Some(m) = names.first().unwrap() else { return Err(what("no material".into())) };
        used.insert(m);
        let blocks: Vec<&Mtl> = mtl.iter().filter(|y| y.0 == *m).map(|y| &y.1).collect();
        ensure!(!blocks.is_empty(), "object {:?} uses the material {m:?}, there is none", ob.name);
        ensure!(!h.dedup || blocks.len() == 1, "material {m:?} is defined {} times", blocks.len());
        let Some(mat) = &x.mat else { continue };
        if !h.textures && !h.dedup {
            ensure!(*m == solid(mat).trim_ascii(), "object {:?} uses {m:?}, its material is {mat:?}", ob.name);
        }
        let img = if h.textures && !x.tex.is_empty() { image_data(&tb, &x.tex) } else { None };
        let fits = |b: &Mtl| -> Res {
            block(&tb, b, mat)?;
            let maps: BTreeSet<&String> = b.maps.values().collect();
            match &img {
                None => ensure!(maps.is_empty(), "it is textured {maps:?}, expected no texture ({:?})", x.tex),
                Some(data) => {
                    ensure!(maps.len() == 1 && b.maps.contains_key("map_Kd"), "it is textured {:?}, expected {:?}", b.maps, x.tex);
                    let f = maps.first().unwrap();
                    let inside = f.strip_prefix("images/").is_some_and(|n| !n.is_empty() && n != ".." && n != "." && !n.contains(['/', '\\', ':', '*', '?', '"', '<', '>', '|']));
                    ensure!(inside, "the texture is at {f:?}");
                    let got = get(&format!("/o/{f}"))?;
                    match data {
                        Some(d) => ensure!(got == d, "the texture {f:?} has other bytes than the image {:?}", x.tex),
                        None => {
                            crate::pixx::read_bmp(got).map_err(|e| format!("the texture {f:?}: {e}"))?;
                        }
                    }
                }
            }
            Ok(())
        };
        // the same name may have been given to several materials without the option to tell them apart
        let mut bad = None;
        for b in &blocks {
            match fits(b) {
                Ok(()) => {
                    bad = None;
                    break;
                }
                Err(e) => bad = Some(e),
            }
        }
        if let Some(e) = bad {
            return Err(what(format!("material {m:?} for {mat:?}: {e}")));
        }
    }
    ensure!(want.is_empty(), "no object for {:?}", want.keys());
    // documented: one definition for each use unless they are to be shared; textured ones are always shared
    if !h.dedup {
        let text = String::from_utf8_lossy(get(h.path)?);
        let uses: Vec<&str> = text.split('\n').filter_map(|l| l.trim_ascii().strip_prefix("usemtl")).map(|x| x.trim_ascii()).collect();
        for m in &used {
            let blocks: Vec<&Mtl> = mtl.iter().filter(|y| y.0 == *m).map(|y| &y.1).collect();
            let uses = uses.iter().filter(|x| *x == m).count();
            if blocks.iter().all(|b| b.maps.is_empty()) {
                ensure!(blocks.len() == uses, "material {m:?} is defined {} times and used {uses} times", blocks.len());
            }
        }
    }
    // nothing else is defined or written
    for (n, m) in &mtl {
        ensure!(used.contains(n.as_str()), "material {n:?} is defined, nothing uses it");
        for f in m.maps.values() {
            get(&format!("/o/{f}"))?;
        }
    }
    let maps: BTreeSet<String> = mtl.iter().flat_map(|m| m.1.maps.values()).map(|f| format!("/o/{f}")).collect();
    for n in files.keys() {
        ensure!(n == h.path || *n == h.mtl() || maps.contains(n), "the file {n:?} is not used");
    }
    // once more
    let v2 = parse(&tb.streams())?;
    ensure!(export(&v2, &h)? == files, "a second export differs");
    crate::p01::classes(&tb, c);
    c.nontrivial = shows.len() > 1;
    c.class_if(!maps.is_empty(), "textures");
    c.class_if(shows.iter().any(|x| x.mesh.len() > 1), "wall as one object");
    c.class_if(shows.iter().any(|x| x.mat.as_ref().is_some_and(|m| lookup(&tb, m).is_some())), "material in use");
    c.class_if(h.dedup, "shared materials");
    c.class_if(mtl.iter().enumerate().any(|(i, x)| mtl[..i].iter().any(|y| y.0 == x.0)), "material defined repeatedly");
    c.class_if(!h.plunger && tb.items.iter().any(|x| x.ty == 3), "plunger left out");
    c.class_if(tb.items.iter().any(|x| !s(x, "SURF").is_empty()), "on a surface");
    Ok(())
}
/// The playfield, back in the table's coordinates.
fn playfield(o: &Obj, k: usize, [l, t, r, b]: [f64; 4], unit: f64) -> Res {
    let (a, z) = counts(o, k);
    let Object { faces, .. } = &o.objects[k];
    let (mut pos, mut nrm, mut uv) = (vec![], vec![], vec![]);
    ensure!(z[0] - a[0] == z[1] - a[1] && z[0] - a[0] == z[2] - a[2], "it has different numbers of positions and normals");
    for i in 0..z[0] - a[0] {
        let (p, n, q) = (o.v[a[0] + i], o.vn[a[2] + i], o.vt[a[1] + i]);
        pos.push([p[0] / unit, p[1] / unit, -p[2] / unit]);
        nrm.push([n[0], n[1], -n[2]]);
        uv.push([q[0], 1.0 - q[1]]);
    }
    let mut tri = vec![];
    for (_, c) in faces {
        ensure!(c.len() == 3 && c.iter().all(|x| x.0 >= a[0] && x.0 < z[0] && x.1 == Some(x.0) && x.2 == Some(x.0)), "a face is {c:?}");
        tri.push([c[2].0 - a[0], c[1].0 - a[0], c[0].0 - a[0]]);
    }
    let m = Mesh { pos, nrm, uv, tri };
    stock::quad(&m, [[l, t, 0.0], [r, t, 0.0], [l, b, 0.0], [r, b, 0.0]], [0.0, 0.0, 1.0])
}

/// Normals and texture coordinates that are no numbers become zero, the rest stays.
fn odd(t: &mut Tape, c: &mut Case) -> Res {
    let mut it = part(t, 0, 19);
    it.recs.retain(|x| !x.tag.starts_with("M3"));
    it.set("U3DM", Val::Bool(true));
    it.set("TVIS", Val::Bool(true));
    it.set("NAME", Val::WStr("Odd".into()));
    let nv = t.usize(3, 20);
    let mut m = MeshM::default();
    for _ in 0..nv {
        let mut v = [0u32; 8];
        for (k, x) in v.iter_mut().enumerate() {
            *x = q(t, -40, 40).to_bits();
            if k >= 3 && t.chance(1, 4) {
                *x = 0x7fc00000 | (t.any() as u32 & 0x803fffff);
                c.class(if k < 6 { "normal is no number" } else { "texture coordinate is no number" });
            }
        }
        m.verts.push(v);
    }
    for _ in 0..3 * t.usize(1, 20) {
        m.idx.push(t.below(nv as u64) as u32);
    }
    it.recs.extend(m.recs());
    for (tag, x) in [("VPOS", [0f32; 3]), ("VSIZ", [1f32; 3])] {
        let v = v3(&it, tag, x);
        it.set(tag, v);
    }
    for k in 0..9 {
        it.set_f(["RTV0", "RTV1", "RTV2", "RTV3", "RTV4", "RTV5", "RTV6", "RTV7", "RTV8"][k], 0.0);
    }
    let mut tb = base(t, vec![it]);
    tb.images.clear();
    tb.sounds.clear();
    tb.fix_counts();
    c.hash = streams_hash(&tb.streams());
    let h = How { dedup: true, textures: false, unit: t.usize(0, 3), plunger: true, path: "/o/x.obj" };
    if tb.version < 1080 && tb.gd_get("NAME").is_none() {
        c.class("old table");
    }
    let files = export(&parse(&tb.streams())?, &h)?;
    let o = objx::parse(files.get(h.path).ok_or("no OBJ")?).map_err(|e| format!("OBJ: {e}"))?;
    let k = o.objects.iter().position(|x| x.name == "Odd").ok_or("no object")?;
    let (a, z) = counts(&o, k);
    ensure!(z[0] - a[0] == nv, "{} vertices, expected {nv}", z[0] - a[0]);
    let num = |b: u32| if f32::from_bits(b).is_nan() { None } else { Some(f32::from_bits(b) as f64) };
    for (i, v) in m.verts.iter().enumerate() {
        let unit = UNITS[h.unit].1;
        let p = o.v[a[0] + i];
        let w = [num(v[0]), num(v[1]), num(v[2]).map(|x| -x)].map(|x| x.unwrap() * unit);
        ensure!((0..3).all(|k| near(p[k], w[k], 1e-6 + 1e-6 * w[k].abs())), "vertex {i} is at {p:?}, expected {w:?}");
        let t = o.vt[a[1] + i];
        let w = [num(v[6]).unwrap_or(0.0), num(v[7]).map_or(0.0, |x| 1.0 - x)];
        ensure!((0..2).all(|k| near(t[k], w[k], 1e-5)), "texture coordinate {i} is {t:?}, expected {w:?}");
        let n = o.vn[a[2] + i];
        let w = [num(v[3]), num(v[4]), num(v[5]).map(|x| -x)];
        if w.iter().all(|x| x.is_some()) {
            let l = w.iter().map(|x| x.unwrap().powi(2)).sum::<f64>().sqrt();
            if l > 0.0 {
                ensure!((0..3).all(|k| near(n[k], w[k].unwrap() / l, 1e-4)), "normal {i} is {n:?}, expected {w:?} at unit length");
            }
        } else {
            ensure!((0..3).all(|k| near(n[k], w[k].unwrap_or(0.0), 1e-4 * (1.0 + n[k].abs()))), "normal {i} is {n:?}, expected {w:?}");
        }
    }
    let f: Vec<[usize; 3]> = o.objects[k].faces.iter().map(|(_, c)| turned([c[0].0 - a[0], c[1].0 - a[0], c[2].0 - a[0]])).collect();
    let w: Vec<[usize; 3]> = m.idx.chunks_exact(3).map(|c| turned([c[2] as usize, c[1] as usize, c[0] as usize])).collect();
    ensure!(f == w, "the faces are {f:?}, expected {w:?}");
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("the shapes are those of the glTF export of the same table, which P18 and P16 compare with models".into());
    ctx.assumptions.push("tables where two objects, images or materials share a name are left out".into());
    ctx.sub("documents", ctx.n(15000, 300000), "at least one part beside the playfield; distinct by table contents", documents);
    ctx.sub("odd numbers", ctx.n(3000, 60000), "every mesh; distinct by table contents", odd);
}
