//! The shapes of parts: turned, scaled and moved copies of the built-in shapes.

use crate::engine::*;
use crate::ensure;
use crate::gltfx::Doc;
use crate::p18::{e, f, glb, matched, s, xyz};
use crate::scene::*;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use crate::world::{Mesh, add, dot, len, turn};
use std::collections::BTreeMap;

/// Part types with their shapes.
pub const STOCK: [(u32, u32); 32] = [
    (5, 0),
    (6, 1),
    (6, 2),
    (6, 3),
    (6, 4),
    (6, 5),
    (6, 6),
    (6, 7),
    (7, 0),
    (8, 1),
    (8, 2),
    (8, 3),
    (8, 4),
    (8, 5),
    (8, 6),
    (10, 1),
    (10, 2),
    (10, 3),
    (10, 4),
    (11, 0),
    (22, 1),
    (22, 2),
    (22, 3),
    (22, 4),
    (22, 5),
    (22, 6),
    (22, 7),
    (22, 8),
    (22, 9),
    (23, 0),
    (10, 0),
    (10, 77),
];

/// The part at the origin, not turned, at unit size.
fn plain(it: &Item) -> Item {
    let mut o = it.clone();
    let z = |o: &mut Item, tag: &str| {
        if let Some(v) = o.get_mut(tag) {
            match v {
                Val::V2(a) => *a = [0; 2],
                Val::V3(a) | Val::V3u(a) => a.iter_mut().for_each(|x| *x = 0),
                Val::F32(a) => *a = 0,
                _ => {}
            }
        }
    };
    for tag in ["VCEN", "VPOS", "ROTA", "ROTZ", "ORIN", "KORI", "HGTH", "WITI", "RTV0", "RTV1", "RTV2", "RTV3", "RTV4", "RTV5", "RTV6", "RTV7", "RTV8"] {
        z(&mut o, tag);
    }
    if o.ty == 11 {
        z(&mut o, "HIGH");
    }
    for tag in ["RADI", "HISC", "LGTH", "SCAX", "SCAY", "BMSC"] {
        o.set_f(tag, 1.0);
    }
    if let Some(Val::V3(a) | Val::V3u(a)) = o.get_mut("VSIZ") {
        *a = [1f32.to_bits(); 3];
    }
    for tag in ["VSBL", "FVIS", "GVSB", "SVIS", "TVIS", "CAVI", "BSVS", "RIVS", "SKVS", "GSUP", "SSUP"] {
        o.set(tag, Val::Bool(true));
    }
    o.set("SURF", Val::Str(String::new()));
    if o.ty == 7 {
        o.recs.retain(|x| x.tag != "DPNT");
    }
    o
}
/// Its meshes by part.
fn shown(it: &Item) -> Result<BTreeMap<&'static str, Mesh>, String> {
    let mut tb = base(&mut Tape::fresh(7), vec![it.clone()]);
    tb.version = 1081;
    tb.fix_counts();
    let v = crate::exp::parse(&tb.streams())?;
    let d = Doc::from_glb(&glb(&v, 0, true)?).map_err(|e| format!("GLB: {e}"))?;
    let w = matched(&tb, &d, 1.0, true)?;
    let mut o = BTreeMap::new();
    for (x, i) in w.wants.iter().zip(&w.of) {
        if let (Some(_), Some(i)) = (x.item, *i) {
            if let Some(m) = &w.nodes[i].mesh {
                o.insert(x.part, m.clone());
            }
        }
    }
    Ok(o)
}

fn close(a: [f64; 3], b: [f64; 3], tol: f64) -> bool {
    (0..3).all(|k| (a[k] - b[k]).abs() <= tol)
}

/// Two triangles between the corners (in reading order) and facing along the normal.
pub fn quad(m: &Mesh, corners: [[f64; 3]; 4], n: [f64; 3]) -> Res {
    ensure!(m.pos.len() == 4 && m.tri.len() == 2, "{} vertices, {} triangles", m.pos.len(), m.tri.len());
    let uv = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]];
    let mut used = [false; 4];
    for i in 0..4 {
        let Some(k) = (0..4).find(|k| !used[*k] && close(m.pos[i], corners[*k], 3e-3) && (m.uv[i][0] - uv[*k][0]).abs() < 1e-5 && (m.uv[i][1] - uv[*k][1]).abs() < 1e-5) else {
            return Err(format!("corner {:?} {:?} is not one of {corners:?}", m.pos[i], m.uv[i]));
        };
        used[k] = true;
        ensure!(close(m.nrm[i], n, 1e-4), "the normal is {:?}, expected {n:?}", m.nrm[i]);
    }
    let sub = crate::world::sub;
    let mut area = 0.0;
    for t in &m.tri {
        let c = crate::world::cross(sub(m.pos[t[1]], m.pos[t[0]]), sub(m.pos[t[2]], m.pos[t[0]]));
        ensure!(dot(c, n) >= -1e-6, "a triangle faces away");
        area += len(c) / 2.0;
    }
    let want = len(crate::world::cross(sub(corners[1], corners[0]), sub(corners[2], corners[0])));
    ensure!((area - want).abs() <= 1e-3 * want + 1e-2, "the triangles cover {area}, expected {want}");
    Ok(())
}

/// Every vertex of `m` is `at` plus the placed vertex of the plain shape.
fn placed(what: &str, it: &Item, at: [f64; 3], m: &Mesh, pos: impl Fn([f64; 3], [f64; 3]) -> [f64; 3], nrm: impl Fn([f64; 3]) -> [f64; 3]) -> Res {
    let all = shown(&plain(it))?;
    let r = all.get(what).ok_or(format!("no plain {what:?}"))?;
    ensure!(r.tri == m.tri, "the triangles of {what:?} change with its size");
    ensure!(r.pos.len() == m.pos.len(), "{what:?} has {} vertices, {} at unit size", m.pos.len(), r.pos.len());
    for i in 0..r.pos.len() {
        let want = add(at, pos(r.pos[i], r.nrm[i]));
        let tol = 4e-3 + 3e-6 * want.iter().fold(0.0f64, |a, x| a.max(x.abs()));
        ensure!(close(m.pos[i], want, tol), "vertex {i} of {what:?} is at {:?}, expected {want:?}", m.pos[i]);
        let n = nrm(r.nrm[i]);
        ensure!(close(m.nrm[i], n, 2e-3), "normal {i} of {what:?} is {:?}, expected {n:?}", m.nrm[i]);
        ensure!((0..2).all(|k| (m.uv[i][k] - r.uv[i][k]).abs() < 1e-5), "texture coordinate {i} of {what:?} is {:?}, expected {:?}", m.uv[i], r.uv[i]);
    }
    Ok(())
}

/// Compares one mesh of a part with what its numbers ask for. False if nothing is predicted.
pub fn check(it: &Item, part: &'static str, at: [f64; 3], m: &Mesh) -> Result<bool, String> {
    let g = |tag: &str| f(it, tag);
    let same = |n: [f64; 3]| n;
    match it.ty {
        5 => {
            let a = g("ORIN");
            let (r, h) = (g("RADI"), g("HISC"));
            // at unit size the socket is raised by 5, the cap by 1
            let (rr, up, dz) = match part {
                "Socket" => (r, 5.0, 5.0),
                "Cap" => (2.0 * r, 1.0, h),
                _ => (r, 0.0, 0.0),
            };
            let rr = if part == "Cap" { rr / 2.0 } else { rr };
            placed(
                part,
                it,
                at,
                m,
                |p, _| {
                    let q = turn(p, 2, a);
                    [q[0] * rr, q[1] * rr, (q[2] - up) * h + dz]
                },
                |n| turn(n, 2, a),
            )?;
        }
        6 => {
            let a = g("ROTA");
            let round = matches!(e(it, "SHAP"), 2 | 4);
            let dz = match e(it, "SHAP") {
                4 => 5.0,
                5 => -19.0,
                _ => 0.0,
            };
            let (r, sx, sy, w) = (g("RADI"), g("SCAX"), g("SCAY"), g("WITI"));
            placed(
                part,
                it,
                at,
                m,
                |p, n| {
                    let q = turn([p[0], p[1], p[2] - dz], 2, a);
                    if round {
                        return [q[0] * r, q[1] * r, q[2] * r + dz];
                    }
                    let l = len(n).max(1e-9);
                    let n = turn([n[0] / l, n[1] / l, n[2] / l], 2, a);
                    [q[0] * sx + n[0] * w, q[1] * sy + n[1] * w, q[2] + dz + n[2] * w]
                },
                |n| turn(n, 2, a),
            )?;
        }
        7 => {
            if part == "_insert" {
                return Ok(false);
            }
            let r = g("BMSC");
            placed(part, it, at, m, |p, _| p.map(|x| x * r), same)?;
        }
        8 => {
            let r = g("RADI");
            let a = match e(it, "TYPE") {
                _ if part == "Plate" => 0.0,
                1 | 3 => 0.0,
                _ => g("KORI"),
            };
            placed(part, it, at, m, |p, _| turn(p, 2, a).map(|x| x * r), |n| turn(n, 2, a))?;
        }
        9 => {
            let (w, h, a) = (g("WDTH") / 2.0, g("HIGH") / 2.0, g("ROTA"));
            let c = [[-w, -h], [w, -h], [-w, h], [w, h]].map(|c| add(at, turn([c[0], c[1], 0.0], 2, a)));
            quad(m, c, [0.0, 0.0, 1.0])?;
        }
        10 | 11 => {
            let (a, l) = (g("ROTA"), g("LGTH"));
            placed(part, it, at, m, |p, _| turn(p, 2, a).map(|x| x * l), |n| turn(n, 2, a))?;
        }
        22 => {
            let (a, k) = (g("ROTZ"), xyz(it, "VSIZ"));
            placed(part, it, at, m, |p, _| turn([p[0] * k[0], p[1] * k[1], p[2] * k[2]], 2, a), |n| turn(n, 2, a))?;
        }
        23 => {
            let r = g("RADI");
            placed(part, it, at, m, |p, _| p.map(|x| x * r), same)?;
        }
        19 => {
            let k = xyz(it, "VSIZ");
            let rt: [f64; 9] = std::array::from_fn(|i| g(["RTV0", "RTV1", "RTV2", "RTV3", "RTV4", "RTV5", "RTV6", "RTV7", "RTV8"][i]));
            let go = |p: [f64; 3], tra: f64| {
                let mut q = [p[0] * k[0] + tra * rt[3], p[1] * k[1] + tra * rt[4], p[2] * k[2] + tra * rt[5]];
                for (axis, i) in [(2, 2), (1, 1), (0, 0), (2, 8), (1, 7), (0, 6)] {
                    q = turn(q, axis, rt[i]);
                }
                q
            };
            placed(
                part,
                it,
                at,
                m,
                |p, _| go(p, 1.0),
                |n| {
                    let q = go(n, 0.0);
                    let l = len(q);
                    if l > 0.0 { q.map(|x| x / l) } else { q }
                },
            )?;
        }
        1 => flipper(it, part, at, m)?,
        3 => return plunger(it, part, at, m),
        _ => return Ok(false),
    }
    Ok(true)
}

fn flipper(it: &Item, part: &str, at: [f64; 3], m: &Mesh) -> Res {
    use std::f64::consts::FRAC_PI_2;
    let either = |new: &str, old: &str| match it.get(new) {
        Some(Val::F32(b)) => f32::from_bits(*b) as f64,
        _ => e(it, old) as f64,
    };
    let (thick, up, wide) = (either("RTHF", "RTHK"), either("RHGF", "RHGT"), either("RWDF", "RWDT"));
    let (rb, re, l, a) = (f(it, "BASR"), f(it, "ENDR"), f(it, "FLPR"), f(it, "ANGS"));
    let s = ((rb - re) / l).clamp(-1.0, 1.0).asin() / FRAC_PI_2;
    let (rb, re, h, z0) = if part == "Base" { (rb - thick, re - thick, f(it, "FHGT"), 0.0) } else { (rb, re, wide, up) };
    // two arcs, at the bottom and at the top
    let mut want = vec![];
    for k in 0..13 {
        let d = (k as f64 - 6.0) / 6.0 * FRAC_PI_2;
        for z in [0.003753 * h + z0, 1.004253 * h + z0] {
            let (p, q) = (-FRAC_PI_2 + d * (1.0 + s), FRAC_PI_2 + d * (1.0 - s));
            for c in [[rb * p.cos(), rb * p.sin(), z], [re * q.cos(), l + re * q.sin(), z]] {
                want.push(add(at, turn(c, 2, 180.0 + a)));
            }
        }
    }
    let near = |p: &[f64; 3]| want.iter().position(|w| close(*w, *p, 0.02 + 2e-4 * (rb.abs() + re.abs())));
    for p in &m.pos {
        ensure!(near(p).is_some(), "vertex {p:?} of {part:?} is on neither end");
    }
    for w in &want {
        ensure!(m.pos.iter().any(|p| close(*w, *p, 0.02 + 2e-4 * (rb.abs() + re.abs()))), "no vertex of {part:?} is at {w:?}");
    }
    Ok(())
}

/// Where all vertices are between, and that they reach there.
fn spans(part: &str, v: impl Iterator<Item = f64>, lo: f64, hi: f64) -> Res {
    let (mut a, mut b) = (f64::INFINITY, f64::NEG_INFINITY);
    for x in v {
        a = a.min(x);
        b = b.max(x);
    }
    ensure!((a - lo).abs() < 0.01 && (b - hi).abs() < 0.01, "{part:?} spans {a} to {b}, expected {lo} to {hi}");
    Ok(())
}
fn plunger(it: &Item, part: &str, at: [f64; 3], m: &Mesh) -> Result<bool, String> {
    let g = |tag: &str| f(it, tag);
    let mut tip = vec![];
    for x in s(it, "TIPS").split(';') {
        let v: Vec<f64> = x.split_whitespace().filter_map(|y| y.parse().ok()).collect();
        if v.len() == 2 {
            tip.push((v[0], v[1] / 2.0 * g("WDTH")));
        }
    }
    let end = -g("HPSL");
    let ring = end + tip.last().map_or(0.0, |x| x.0) + g("RNGG");
    let rod = g("WDTH") * g("RODD") / 2.0;
    let zc = g("WDTH") * if part == "Flat" { 1.25 } else { 1.0 };
    let y = m.pos.iter().map(|p| p[1] - at[1]);
    let r = m.pos.iter().map(|p| ((p[0] - at[0]).powi(2) + (p[2] - at[2] - zc).powi(2)).sqrt());
    let order = |a: f64, b: f64| (a.min(b), a.max(b));
    match part {
        "Flat" => {
            let (lo, hi) = order(end, g("HIGH"));
            spans(part, y, lo, hi)?;
            spans(part, r, 0.0, rod)?;
        }
        "Rod" => {
            let (lo, hi) = order(ring + g("RNGW"), g("HIGH"));
            spans(part, y, lo, hi)?;
            spans(part, r, 0.0, rod)?;
        }
        "Ring" => {
            let big = g("WDTH") * g("RNGD") / 2.0;
            spans(part, y, ring, ring + g("RNGW"))?;
            let (lo, hi) = order(rod, big);
            spans(part, r, lo, hi)?;
        }
        "Tip" => {
            for (y, rad) in &tip {
                let found = m.pos.iter().any(|p| (p[1] - at[1] - end - y).abs() < 0.01 && (((p[0] - at[0]).powi(2) + (p[2] - at[2] - zc).powi(2)).sqrt() - rad).abs() < 0.01);
                ensure!(found, "no vertex of the tip at {y} from its end, {rad} wide");
            }
            spans(part, y, end + tip[0].0, end + tip.last().unwrap().0)?;
        }
        "Spring" => {
            // around the rod, between the ring and the end of the rod
            let big = g("WDTH") / 2.0 * g("SPRD") + g("SPRG");
            let (_, far) = r.fold((f64::INFINITY, 0.0f64), |a, x| (a.0.min(x), a.1.max(x)));
            ensure!(far <= big + 0.05, "the spring reaches {far} from the rod's axis, expected {big}");
            let low = y.fold(f64::INFINITY, f64::min);
            let coil = g("SPRE") * g("SPRG") * 2.2;
            ensure!(ring + g("RNGW") + coil > g("HIGH") || (low - ring - g("RNGW")).abs() <= g("SPRG") + 0.05, "the spring starts at {low}, the ring ends at {}", ring + g("RNGW"));
        }
        _ => return Ok(false),
    }
    Ok(true)
}

fn stock_item(ty: u32, shape: u32) -> Item {
    let prof = Prof { table_sized: true, unique_names: true, opt8: 8, ..Prof::default() };
    let mut t = Tape::fresh(11);
    let mut it = gen_item_of(&mut t, &prof, 0, ty);
    tame(&mut t, &mut it);
    let tag = match ty {
        6 => "SHAP",
        10 => "GATY",
        22 => "TRTY",
        _ => "TYPE",
    };
    match it.get_mut(tag) {
        Some(Val::Enum(x)) | Some(Val::U32(x)) => *x = shape,
        Some(Val::I32(x)) => *x = shape as i32,
        _ => {}
    }
    it.set("BGLS", Val::Bool(false));
    it.set("SHBM", Val::Bool(true));
    it.set("NAME", Val::WStr("S".into()));
    plain(&it)
}
/// The numbers of every built-in shape.
pub fn table() -> Result<Vec<(u32, u32, String, Vec<f64>)>, String> {
    let mut o = vec![];
    for (ty, shape) in STOCK {
        for (part, m) in shown(&stock_item(ty, shape)).map_err(|e| format!("type {ty} shape {shape}: {e}"))? {
            o.push((ty, shape, part.to_string(), m.signature()));
        }
    }
    Ok(o)
}
pub fn print() {
    match table() {
        Ok(v) => v.iter().for_each(|(a, b, p, s)| println!("{a} {b} {} {}", if p.is_empty() { "-" } else { p }, s.iter().map(|x| format!("{x:.5}")).collect::<Vec<_>>().join(" "))),
        Err(e) => println!("{e}"),
    }
}

pub fn golden(_: &mut Tape, c: &mut Case) -> Res {
    c.nontrivial = true;
    let mut want: BTreeMap<(u32, u32, String), Vec<f64>> = BTreeMap::new();
    for l in include_str!("stock.txt").lines() {
        let w: Vec<&str> = l.split(' ').collect();
        want.insert((w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].trim_matches('-').into()), w[3..].iter().map(|x| x.parse().unwrap()).collect());
    }
    for (ty, shape, part, got) in table()? {
        let what = format!("{} shape {shape} {part:?}", type_name(ty));
        let w = want.remove(&(ty, shape, part)).ok_or(format!("{what}: unexpected mesh"))?;
        for k in 0..w.len() {
            ensure!((got[k] - w[k]).abs() <= 2e-3 + 1e-5 * w[k].abs(), "{what}: number {k} of its mesh is {}, expected {}", got[k], w[k]);
        }
        c.evals += 1;
    }
    ensure!(want.is_empty(), "no mesh for {:?}", want.keys().next());
    Ok(())
}
