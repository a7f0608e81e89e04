//! P16: meshes made from control points.

use crate::curve::{dist, follow_within, segments};
use crate::engine::*;
use crate::ensure;
use crate::exp::{Files, ROOT, expand, parse};
use crate::gltfx::Doc;
use crate::objx;
use crate::p01::summary;
use crate::p12::doc_of;
use crate::p18::{World, b, e, f, gdf, glb, matched, near, s, xyz};
use crate::scene::*;
use crate::tape::Tape;
use crate::wire::*;
use crate::world::{Mesh, Node, add, cross, dot, len, sub, turn};

type P2 = [f64; 2];

// ---- control points

fn grid(x: f64) -> f32 {
    ((x * 16.0).round() / 16.0) as f32
}
/// Outlines of many kinds; most do not cross themselves.
pub fn outline(t: &mut Tape, c: &mut Case) -> Vec<P> {
    let (cx, cy) = (t.range(200, 700) as f64, t.range(300, 1700) as f64);
    let mut p: Vec<P2> = match t.below(6) {
        0 => {
            c.class("comb");
            let k = t.usize(1, 6);
            let w = t.range(2, 20) as f64;
            let mut o = vec![];
            for i in 0..k {
                let x = 2.0 * i as f64 * w;
                let h = t.range(4, 80) as f64;
                o.extend([[x, h], [x + w, h], [x + w, 0.0], [x + 2.0 * w, 0.0]]);
            }
            let base = -(t.range(4, 40) as f64);
            // points in line along the back
            for i in 0..t.usize(2, 4) {
                o.push([2.0 * k as f64 * w * (1.0 - i as f64), base]);
                if i == 1 {
                    break;
                }
            }
            if t.bool() {
                let l = o.len();
                let m = [(o[l - 1][0] + o[l - 2][0]) / 2.0, base];
                o.insert(l - 1, m);
            }
            o
        }
        1 => {
            c.class("spiral");
            let n = t.usize(3, 12);
            let (r0, dr) = (t.range(10, 30) as f64, t.range(3, 9) as f64);
            let w = t.range(1, 4) as f64 * 0.4 * dr;
            let step = t.range(40, 80) as f64;
            let at = |i: usize, r: f64| {
                let a = (i as f64 * step).to_radians();
                let r = r + dr * i as f64 * step / 60.0;
                [r * a.cos(), r * a.sin()]
            };
            let mut o: Vec<P2> = (0..n).map(|i| at(i, r0 + w)).collect();
            o.extend((0..n).rev().map(|i| at(i, r0)));
            o
        }
        2 => {
            c.class("star");
            let n = t.usize(3, 10);
            (0..2 * n)
                .map(|i| {
                    let a = i as f64 / n as f64 * std::f64::consts::PI;
                    let r = if i % 2 == 0 { t.range(60, 200) } else { t.range(8, 60) } as f64;
                    [r * a.cos(), r * a.sin()]
                })
                .collect()
        }
        3 => {
            c.class("two chains");
            let n = t.usize(2, 8);
            let mut o = vec![];
            for i in 0..n {
                o.push([i as f64 * 20.0, t.range(5, 60) as f64]);
            }
            for i in (0..n).rev() {
                o.push([i as f64 * 20.0 + t.range(-5, 5) as f64, -(t.range(0, 60) as f64)]);
            }
            o
        }
        _ => {
            c.class("ring");
            return ring(t);
        }
    };
    let turn = *t.pick(&[0.0, 0.0, 90.0, 37.0, 180.0, 201.5]) as f64;
    let (sn, cs) = turn.to_radians().sin_cos();
    for q in p.iter_mut() {
        *q = [cx + q[0] * cs - q[1] * sn, cy + q[0] * sn + q[1] * cs];
    }
    if t.bool() {
        p.reverse();
    }
    let k = t.usize(0, p.len() - 1);
    p.rotate_left(k);
    let how = t.below(3);
    p.iter().map(|q| P { x: grid(q[0]), y: grid(q[1]), z: 0.0, smooth: how == 1 || (how == 2 && t.bool()) }).collect()
}
fn coincide(t: &mut Tape, c: &mut Case, p: &mut Vec<P>) {
    if t.chance(1, 10) {
        c.class("coinciding points");
        let k = t.usize(0, p.len() - 1);
        let q = p[k];
        p.insert(k, q);
    }
}
fn xy(p: &[P]) -> (Vec<P2>, Vec<bool>) {
    (p.iter().map(|q| [q.x as f64, q.y as f64]).collect(), p.iter().map(|q| q.smooth).collect())
}
fn coinciding(p: &[P]) -> bool {
    (0..p.len()).any(|i| {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        (a.x - b.x).abs() < 1e-6 && (a.y - b.y).abs() < 1e-6
    })
}

// ---- polygons

fn area2(a: P2, b: P2, c: P2) -> f64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
fn to_segment(p: P2, a: P2, b: P2) -> f64 {
    let d = [b[0] - a[0], b[1] - a[1]];
    let l = d[0] * d[0] + d[1] * d[1];
    let k = if l > 0.0 { (((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / l).clamp(0.0, 1.0) } else { 0.0 };
    dist(p, [a[0] + k * d[0], a[1] + k * d[1]])
}
/// Whether an outline clearly does not touch itself.
fn simple(p: &[P2]) -> bool {
    let n = p.len();
    let gap: f64 = 0.05;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if dist(a, b) < 1e-3 {
            return false;
        }
        // no turning back
        let z = p[(i + 2) % n];
        if to_segment(z, a, b) < gap.min(0.2 * dist(b, z)) || to_segment(a, b, z) < gap.min(0.2 * dist(a, b)) {
            return false;
        }
        for j in i + 2..n {
            if i == 0 && j == n - 1 {
                continue;
            }
            let (u, v) = (p[j], p[(j + 1) % n]);
            let crossing = area2(a, b, u).signum() != area2(a, b, v).signum() && area2(u, v, a).signum() != area2(u, v, b).signum();
            let near = [to_segment(u, a, b), to_segment(v, a, b), to_segment(a, u, v), to_segment(b, u, v)].iter().any(|d| *d < gap);
            if crossing || (near && !(j == i + 2 && dist(b, u) < 4.0 * gap) && !((j + 2) % n == i && dist(v, a) < 4.0 * gap)) {
                return false;
            }
        }
    }
    true
}
/// The triangles cover the polygon once.
fn covers(p: &[P2], tri: &[[usize; 3]], c: &mut Case) -> Res {
    let n = p.len();
    for x in tri {
        ensure!(x.iter().all(|i| *i < n), "a triangle refers to {x:?}, there are {n} vertices");
    }
    ensure!(tri.len() <= n - 2, "{} triangles for {n} corners", tri.len());
    if !simple(p) {
        c.class("touches itself");
        return Ok(());
    }
    c.class("simple outline");
    let total: f64 = (0..n).map(|i| p[i][0] * p[(i + 1) % n][1] - p[i][1] * p[(i + 1) % n][0]).sum::<f64>() / 2.0;
    let areas: Vec<f64> = tri.iter().map(|x| area2(p[x[0]], p[x[1]], p[x[2]]) / 2.0).collect();
    let sum: f64 = areas.iter().map(|x| x.abs()).sum();
    let girth: f64 = (0..n).map(|i| dist(p[i], p[(i + 1) % n])).sum();
    let tol = 1e-4 * total.abs() + 2e-3 * girth;
    ensure!(near(sum, total.abs(), tol), "{} triangles cover {sum}, the outline of {n} corners encloses {}", tri.len(), total.abs());
    let (up, down) = (areas.iter().filter(|x| **x > tol).count(), areas.iter().filter(|x| **x < -tol).count());
    ensure!(up == 0 || down == 0, "{up} triangles face one way and {down} the other");
    ensure!(tri.len() == n - 2, "{} triangles for {n} corners", tri.len());
    c.class_if((0..n).any(|i| area2(p[i], p[(i + 1) % n], p[(i + 2) % n]) * total < -1e-3), "concave outline");
    Ok(())
}

// ---- general

fn finite(m: &Mesh) -> Res {
    for (i, p) in m.pos.iter().enumerate() {
        ensure!(p.iter().chain(&m.nrm[i]).chain(&m.uv[i]).all(|x| x.is_finite()), "vertex {i} is not finite");
    }
    for x in &m.tri {
        ensure!(x.iter().all(|i| *i < m.pos.len()), "a triangle refers to {x:?}, there are {} vertices", m.pos.len());
    }
    Ok(())
}
fn unit_normals(m: &Mesh, may_be_zero: bool) -> Res {
    for (i, n) in m.nrm.iter().enumerate() {
        let l = len(*n);
        ensure!(near(l, 1.0, 2e-3) || (may_be_zero && l < 1e-6), "the normal of vertex {i} is {n:?}");
    }
    Ok(())
}
/// Normals are the mean of those of the triangles around them.
fn mean_normals(m: &Mesh, range: std::ops::Range<usize>, sign: f64) -> Res {
    let mut sum = vec![[0.0; 3]; m.pos.len()];
    let mut poor = vec![false; m.pos.len()];
    for x in &m.tri {
        if !x.iter().all(|i| range.contains(i)) {
            continue;
        }
        let [p, q, r] = x.map(|i| m.pos[i]);
        let n = cross(sub(q, p), sub(r, p));
        let l = len(n);
        let longest = [sub(q, p), sub(r, p), sub(r, q)].iter().map(|d| len(*d)).fold(0.0, f64::max);
        for i in x {
            // too thin to tell in single precision
            poor[*i] |= l < 0.03 * longest.max(1.0);
            if l > 0.0 {
                sum[*i] = add(sum[*i], n.map(|k| k / l));
            }
        }
    }
    for i in range {
        let l = len(sum[i]);
        if poor[i] || l < 0.2 {
            continue;
        }
        let k = dot(sum[i], m.nrm[i]) / l * sign;
        ensure!(k > 0.995, "the normal of vertex {i} is {:?}, its triangles face {:?}", m.nrm[i], sum[i].map(|x| x / l));
    }
    Ok(())
}
/// Triangles face where their normals point.
fn faces_agree(m: &Mesh) -> Res {
    for x in &m.tri {
        let [p, q, r] = x.map(|i| m.pos[i]);
        let n = cross(sub(q, p), sub(r, p));
        let l = len(n);
        let longest = [sub(q, p), sub(r, p), sub(r, q)].iter().map(|d| len(*d)).fold(0.0, f64::max);
        if l < 0.03 * longest.max(1.0) {
            continue;
        }
        let k: f64 = x.iter().map(|i| dot(n, m.nrm[*i]) / l).sum();
        ensure!(k > -0.01, "triangle {x:?} faces {:?}, its normals point to {:?}", n.map(|v| v / l), x.map(|i| m.nrm[i]));
    }
    Ok(())
}

// ---- tables

fn scene(tb: &Table) -> Result<World, String> {
    let v = parse(&tb.streams())?;
    let d = Doc::from_glb(&glb(&v, 0, true)?).map_err(|e| format!("GLB: {e}"))?;
    matched(tb, &d, 1.0, true)
}
/// The scene; none if the part that is missing there has an outline that touches itself.
fn scene_of_outlines(tb: &Table, c: &mut Case) -> Result<Option<World>, String> {
    scene(tb).map(Some).or_else(|err| {
        let crossed = tb.items.iter().any(|it| {
            let mine = err.contains(&format!("\"{}", s(it, "NAME"))) && err.ends_with("is missing") && [0, 7, 20].contains(&it.ty);
            if !mine {
                return false;
            }
            let (p, smooth) = xy(&points(it));
            let fine: Vec<P2> = segments(&p, &smooth, true).iter().flat_map(|s| (0..24).map(|k| s.at(k as f64 / 24.0)).collect::<Vec<_>>()).collect();
            !simple(&fine)
        });
        if !crossed {
            return Err(err);
        }
        c.class("no mesh for an outline that touches itself");
        c.nontrivial = false;
        Ok(None)
    })
}
fn node<'a>(w: &'a World, item: usize, part: &str) -> Result<Option<(&'a Node, &'a Mesh)>, String> {
    for (x, i) in w.wants.iter().zip(&w.of) {
        if x.item == Some(item) && x.part == part {
            let Some(i) = *i else { return Ok(None) };
            let n = &w.nodes[i];
            return Ok(n.mesh.as_ref().map(|m| (n, m)));
        }
    }
    Err(format!("part {item} {part:?} is not expected"))
}
fn named(it: &mut Item, i: usize) {
    it.set("NAME", Val::WStr(format!("Part {i}")));
}
fn table(t: &mut Tape, items: Vec<Item>) -> Table {
    let mut tb = base(t, items);
    tb.images.clear();
    tb.sounds.clear();
    tb.fix_counts();
    link(t, &mut tb);
    tb
}
fn dims(tb: &Table) -> [f64; 4] {
    ["LEFT", "TOPX", "RGHT", "BOTM"].map(|x| gdf(tb, x))
}
fn detail(tb: &Table) -> u32 {
    if tb.gd_get("OGAC") == Some(&Val::Bool(true)) {
        if let Some(Val::U32(x)) = tb.gd_get("ARAC") {
            return *x;
        }
    }
    10
}
fn ring_corners(detail: u32, full: bool) -> usize {
    match detail {
        _ if full => 12,
        0..=4 => 6,
        5..=7 => 8,
        8 => 10,
        9 => 11,
        10 => 13,
        x => (x as f64 * 1.3) as usize,
    }
}

// ---- walls

/// Places of the control points in an outline; None where that is not beyond doubt.
fn control_places(p: &[P], out: &[P2]) -> Option<Vec<usize>> {
    if coinciding(p) {
        return None;
    }
    let mut o = vec![];
    let mut at = 0;
    for q in p {
        at += out[at..].iter().position(|x| x[0] == q.x as f64 && x[1] == q.y as f64)?;
        o.push(at);
        at += 1;
    }
    Some(o)
}

fn check_wall(tb: &Table, w: &World, i: usize, c: &mut Case) -> Res {
    let it = &tb.items[i];
    let p = points(it);
    let (pts, smooth) = xy(&p);
    let (lo, hi) = (f(it, "HTBT"), f(it, "HTTP"));
    let Some((_, top)) = node(w, i, "Top")? else { return Err("the wall has no top".into()) };
    finite(top)?;
    let out: Vec<P2> = top.pos.iter().map(|q| [q[0], q[1]]).collect();
    follow_within(&out, &pts, &smooth, true, 4.0, 2e-4).map_err(|e| format!("top: {e}"))?;
    let [l, tp, r, bt] = dims(tb);
    for (k, q) in top.pos.iter().enumerate() {
        ensure!(near(q[2], hi, 1e-3), "top: vertex {k} is at {q:?}, the wall ends at {hi}");
        ensure!(top.nrm[k] == [0.0, 0.0, 1.0], "top: vertex {k} faces {:?}", top.nrm[k]);
        let uv = [(q[0] - l) / (r - l), (q[1] - tp) / (bt - tp)];
        ensure!(dist(uv, top.uv[k]) < 1e-4 * (1.0 + uv[0].abs() + uv[1].abs()), "top: vertex {k} at {q:?} shows {:?} of the image, expected {uv:?}", top.uv[k]);
    }
    covers(&out, &top.tri, c).map_err(|e| format!("top: {e}"))?;
    faces_agree(top).map_err(|e| format!("top: {e}"))?;

    let Some((_, side)) = node(w, i, "Side")? else { return Err("the wall has no side".into()) };
    finite(side)?;
    let n = out.len();
    let mut sense = 0;
    ensure!(side.pos.len() == 4 * n && side.tri.len() == 2 * n, "side: {} vertices and {} triangles for {n} edges", side.pos.len(), side.tri.len());
    let places = control_places(&p, &out);
    // which outline points are smooth
    let soft: Option<Vec<bool>> = places.as_ref().map(|pl| {
        let mut v = vec![true; n];
        for (k, at) in pl.iter().enumerate() {
            v[*at] = p[k].smooth;
        }
        v
    });
    let edge = |k: usize| -> [f64; 3] {
        let (a, b) = (out[k % n], out[(k + 1) % n]);
        let l = dist(a, b);
        if l == 0.0 { [0.0; 3] } else { [(a[1] - b[1]) / l, (b[0] - a[0]) / l, 0.0] }
    };
    let image = !s(it, "SIMG").is_empty() || !s(it, "IMAG").is_empty();
    let tu: Option<Vec<f64>> = if !image { Some(vec![0.0; n]) } else { places.as_ref().map(|pl| side_coords(it, &out, pl, c)) };
    for k in 0..n {
        let q = (k + 1) % n;
        let want = [[out[k][0], out[k][1], lo], [out[k][0], out[k][1], hi], [out[q][0], out[q][1], hi], [out[q][0], out[q][1], lo]];
        for (j, x) in want.iter().enumerate() {
            let at = 4 * k + j;
            ensure!(len(sub(side.pos[at], *x)) < 2e-3, "side: vertex {at} is at {:?}, expected {x:?}", side.pos[at]);
            let v = if image { [1.0, 0.0, 0.0, 1.0][j] } else { 0.0 };
            ensure!(near(side.uv[at][1], v, 1e-5), "side: vertex {at} shows {:?} of the image", side.uv[at]);
            if let Some(tu) = &tu {
                let x = if j < 2 { tu[k] } else { tu[q] };
                ensure!(near(side.uv[at][0], x, 1e-3 * (1.0 + x.abs())), "side: vertex {at} shows {:?} of the image, expected {x} across", side.uv[at]);
            }
            let nl = len(side.nrm[at]);
            ensure!(near(side.nrm[at][2], 0.0, 1e-6) && (near(nl, 1.0, 2e-3) || nl < 1e-6), "side: vertex {at} faces {:?}", side.nrm[at]);
            if let Some(soft) = &soft {
                let m = if j < 2 { k } else { q };
                let (e1, e2) = (edge(m + n - 1), edge(m));
                let mut x = edge(k);
                if soft[m] {
                    x = add(e1, e2);
                }
                let short = dist(out[m], out[(m + 1) % n]).min(dist(out[m], out[(m + n - 1) % n]));
                let l = len(x);
                if l > 0.1 && short > 0.1 {
                    ensure!(dot(x, side.nrm[at]) / l > 0.999, "side: vertex {at} faces {:?}, expected {:?}", side.nrm[at], x.map(|v| v / l));
                }
            }
        }
        let own: Vec<[usize; 3]> = side.tri.iter().filter(|x| x.iter().all(|v| v / 4 == k)).copied().collect();
        let sg = tiles(&own, [4 * k, 4 * k + 1, 4 * k + 2, 4 * k + 3]).map_err(|e| format!("side, edge {k}: {e}"))?;
        ensure!(sense == 0 || sg == sense, "side: edge {k} is seen from the other side than the first");
        sense = sg;
    }
    let hard = p.iter().all(|q| !q.smooth);
    if hard {
        faces_agree(side).map_err(|e| format!("side: {e}"))?;
    }
    c.class_if(hard, "straight corners");
    c.class_if(p.iter().any(|q| q.smooth), "smooth corners");
    Ok(())
}
/// How far along the image every point of the outline is.
fn side_coords(it: &Item, out: &[P2], places: &[usize], c: &mut Case) -> Vec<f64> {
    let n = out.len();
    let get = |rs: &Vec<Rec>, tag: &str| rs.iter().find(|x| x.tag == tag).map(|x| x.val.clone());
    let mut fixed: Vec<(usize, f64)> = vec![];
    for (k, rs) in it.points().iter().enumerate() {
        if get(rs, "ATEX") != Some(Val::Bool(true)) {
            let v = if let Some(Val::F32(b)) = get(rs, "TEXC") { f32::from_bits(b) as f64 } else { 0.0 };
            fixed.push((places[k], v));
        }
    }
    let ends: Vec<(usize, f64, usize, f64)> = if fixed.is_empty() {
        c.class("automatic image coordinates");
        vec![(places[0], 0.0, places[0] + n, 1.0)]
    } else {
        c.class("given image coordinates");
        (0..fixed.len())
            .map(|i| {
                let (a, va) = fixed[i];
                let (b, vb) = fixed[(i + 1) % fixed.len()];
                (a, va, if i + 1 == fixed.len() { b + n } else { b }, vb)
            })
            .collect()
    };
    let mut o = vec![0.0; n];
    for (a, va, b, vb) in ends {
        let step = |k: usize| dist(out[k % n], out[(k + 1) % n]);
        let total: f64 = (a..b).map(step).sum();
        let mut at = 0.0;
        for k in a..b {
            o[k % n] = va + at / total * (vb - va);
            at += step(k);
        }
    }
    o
}
fn set_coords(t: &mut Tape, it: &mut Item) {
    let how = t.below(3);
    for x in it.recs.iter_mut() {
        if let Val::Sub(rs) = &mut x.val {
            for y in rs.iter_mut() {
                match y.tag {
                    "ATEX" => y.val = Val::Bool(how == 0 || (how == 1 && t.bool())),
                    "TEXC" => y.val = fv(t.range(-300, 300) as f32 / 100.0),
                    _ => {}
                }
            }
        }
    }
}

fn wall(t: &mut Tape, c: &mut Case, i: usize) -> Item {
    let mut it = part(t, i, 0);
    named(&mut it, i);
    let mut p = outline(t, c);
    coincide(t, c, &mut p);
    set_points(t, &mut it, &p);
    set_coords(t, &mut it);
    it
}
fn walls(t: &mut Tape, c: &mut Case) -> Res {
    let n = t.usize(1, 2);
    let items = (0..n).map(|i| wall(t, c, i)).collect();
    let tb = table(t, items);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams());
    c.nontrivial = true;
    let Some(w) = scene_of_outlines(&tb, c)? else { return Ok(()) };
    for i in 0..n {
        check_wall(&tb, &w, i, c)?;
    }
    Ok(())
}

// ---- tubes

struct Tube<'a> {
    m: &'a Mesh,
    first: usize,
    rings: usize,
    corners: usize,
    radius: f64,
}
impl Tube<'_> {
    fn centres(&self) -> Vec<[f64; 3]> {
        (0..self.rings)
            .map(|i| {
                let at = self.first + i * self.corners;
                let s = self.m.pos[at..at + self.corners].iter().fold([0.0; 3], |a, b| add(a, *b));
                s.map(|x| x / self.corners as f64)
            })
            .collect()
    }
    /// Circles around the centres, square to the tangents, that do not twist.
    fn check(&self, tan: &[[f64; 3]], closed: bool, c: &mut Case) -> Res {
        let (n, s, r) = (self.rings, self.corners, self.radius);
        let mid = self.centres();
        let step = std::f64::consts::TAU / s as f64;
        let mut sense = 0.0;
        let arm = |i: usize, j: usize| sub(self.m.pos[self.first + i * s + j % s], mid[i]);
        let mut sure = vec![false; n];
        for i in 0..n {
            let tl = len(tan[i]);
            sure[i] = tl > 0.05;
            let tn = tan[i].map(|x| x / tl);
            // a flat piece of the table has few digits
            let slack = 2e-3 + 5e-4 / tl;
            for j in 0..s {
                let (a, z) = (arm(i, j), arm(i, j + 1));
                ensure!(near(len(a), r, 1e-3 + 1e-4 * r), "ring {i}: vertex {j} is {} from the centre, the radius is {r}", len(a));
                let u = i as f64 / n as f64;
                let uv = [u, (j as f64 + u) / s as f64];
                let at = self.first + i * s + j;
                ensure!(dist(self.m.uv[at], uv) < 1e-5, "ring {i}: vertex {j} shows {:?}, expected {uv:?}", self.m.uv[at]);
                if !sure[i] {
                    continue;
                }
                ensure!(dot(a, tn).abs() < r * slack + 1e-3, "ring {i}: vertex {j} leans by {} along the curve (radius {r}, step {tl})", dot(a, tn));
                ensure!(near(dot(a, z), r * r * step.cos(), r * r * slack + 2e-3 * r), "ring {i}: vertices {j} and {} are not {s} to the round", j + 1);
                let q = dot(tn, cross(a, z));
                if sense == 0.0 {
                    sense = q.signum();
                }
                ensure!(near(q, sense * r * r * step.sin(), r * r * slack + 2e-3 * r), "ring {i}: vertices {j} and {} turn by {q} (radius {r})", j + 1);
            }
        }
        for i in 1..n {
            if !sure[i - 1] || !sure[i] || r < 0.5 {
                continue;
            }
            let tn = [tan[i - 1], tan[i]].map(|x| x.map(|v| v / len(x)));
            let bi = cross(tn[0], arm(i - 1, 0).map(|x| x / r));
            let want = cross(bi, tn[1]);
            let l = len(want);
            if l < 0.2 || len(tan[i]) < 0.5 || len(tan[i - 1]) < 0.5 {
                continue;
            }
            c.class("frame carried on");
            let k = dot(want, arm(i, 0)) / (l * r);
            ensure!(k > 0.99, "ring {i} is twisted by {:.1} degrees", k.clamp(-1.0, 1.0).acos().to_degrees());
        }
        // every patch between neighbouring rings has its two triangles
        let patches = if closed { n } else { n - 1 };
        let mut seen = vec![vec![]; patches * s];
        let own = self.first..self.first + n * s;
        for x in &self.m.tri {
            let k = x.iter().filter(|v| own.contains(v)).count();
            ensure!(k == 0 || k == 3, "triangle {x:?} joins two tubes");
            if k == 0 {
                continue;
            }
            let q = x.map(|v| ((v - self.first) / s, (v - self.first) % s));
            let hit = (0..patches).filter(|i| q.iter().all(|(a, _)| *a == *i || *a == (*i + 1) % n)).find_map(|i| (0..s).find(|j| q.iter().all(|(_, b)| *b == *j || *b == (*j + 1) % s)).map(|j| (i, j)));
            let Some((i, j)) = hit else { return Err(format!("triangle {x:?} joins {q:?} (ring, place)")) };
            ensure!(x[0] != x[1] && x[1] != x[2] && x[0] != x[2], "triangle {x:?} has no surface");
            seen[i * s + j].push(*x);
        }
        // two rings that follow each other twice share their patches
        let mut side = 0;
        if !(closed && n == 2) {
            for (k, x) in seen.iter().enumerate() {
                let at = |i: usize, j: usize| self.first + i % n * s + j % s;
                let (i, j) = (k / s, k % s);
                let sg = tiles(x, [at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)]).map_err(|e| format!("between rings {i} and {} at {j}: {e}", i + 1))?;
                ensure!(side == 0 || sg == side, "the triangles between rings {i} and {} at {j} are seen from the other side than the first", i + 1);
                side = sg;
            }
        }
        Ok(())
    }
}

/// Whether two triangles make up the piece with these corners in order: 1 with their sense, -1 against it.
fn tiles(x: &[[usize; 3]], cs: [usize; 4]) -> Result<i32, String> {
    let edges: Vec<(usize, usize)> = x.iter().flat_map(|t| (0..3).map(|k| (t[k], t[(k + 1) % 3]))).collect();
    let outer: Vec<_> = edges.iter().filter(|(a, b)| !edges.contains(&(*b, *a))).collect();
    for (sg, d) in [(1, 1), (-1, 3)] {
        if x.len() == 2 && outer.len() == 4 && (0..4).all(|k| outer.contains(&&(cs[k], cs[(k + d) % 4]))) {
            return Ok(sg);
        }
    }
    Err(format!("the triangles {x:?} do not cover the piece between {cs:?}"))
}

// ---- rubbers

fn rubber(t: &mut Tape, c: &mut Case, i: usize) -> Item {
    let mut it = part(t, i, 21);
    named(&mut it, i);
    let mut p = outline(t, c);
    if t.chance(1, 10) {
        c.class("two points");
        p.truncate(2);
    }
    coincide(t, c, &mut p);
    set_points(t, &mut it, &p);
    for tag in turns(it.ty) {
        if t.chance(1, 3) {
            it.set_f(tag, 0.0);
        }
    }
    if t.chance(1, 6) {
        c.class("at height 0");
        for tag in ["HTTP", "HTHI"] {
            it.set_f(tag, 0.0);
        }
    }
    it
}
fn turns(ty: u32) -> [&'static str; 3] {
    if ty == 20 { ["FROX", "FROY", "FROZ"] } else { ["ROTX", "ROTY", "ROTZ"] }
}
fn unturn(it: &Item, p: [f64; 3]) -> [f64; 3] {
    let [x, y, z] = turns(it.ty).map(|k| f(it, k));
    turn(turn(turn(p, 2, -z), 1, -y), 0, -x)
}
/// The mesh before it was turned about its node.
fn unturned(it: &Item, n: &Node, m: &Mesh) -> Mesh {
    Mesh { pos: m.pos.iter().map(|p| add(n.at, unturn(it, sub(*p, n.at)))).collect(), nrm: m.nrm.iter().map(|p| unturn(it, *p)).collect(), ..m.clone() }
}
fn check_rubber(tb: &Table, w: &World, i: usize, c: &mut Case) -> Res {
    let it = &tb.items[i];
    let p = points(it);
    let (pts, smooth) = xy(&p);
    let Some((n, m)) = node(w, i, "")? else { return Err("the rubber is missing".into()) };
    finite(m)?;
    let m = unturned(it, n, m);
    let s = ring_corners(detail(tb), b(it, "ESTR", true));
    ensure!(m.pos.len() % s == 0 && !m.pos.is_empty(), "{} vertices in rings of {s}", m.pos.len());
    let thick = e(it, "WDTP") as f64;
    let tube = Tube { m: &m, first: 0, rings: m.pos.len() / s, corners: s, radius: thick / 2.0 };
    let mid = tube.centres();
    let out: Vec<P2> = mid.iter().map(|q| [q[0], q[1]]).collect();
    follow_within(&out, &pts, &smooth, true, 4.0, 1e-3).map_err(|e| format!("centre line: {e}"))?;
    let (lo, hi) = m.bounds();
    for k in 0..3 {
        ensure!(near((lo[k] + hi[k]) / 2.0, n.at[k], 2e-3), "the rubber reaches from {lo:?} to {hi:?} around {:?}", n.at);
    }
    ensure!(near(n.at[2], f(it, "HTTP"), 1e-3), "the rubber is at {:?}", n.at);
    for (k, q) in mid.iter().enumerate() {
        ensure!(near(q[2], mid[0][2], 2e-3), "ring {k} is at height {}, the first at {}", q[2], mid[0][2]);
        ensure!((q[2] - n.at[2]).abs() <= thick / 2.0 + 2e-3, "ring {k} is at height {}, the rubber at {}", q[2], n.at[2]);
    }
    let r = mid.len();
    let tan: Vec<[f64; 3]> = (0..r).map(|k| { let d = sub(mid[(k + 1) % r], mid[k]); [d[0], d[1], 0.0] }).collect();
    tube.check(&tan, true, c)?;
    unit_normals(&m, true)?;
    if r > 2 {
        mean_normals(&m, 0..m.pos.len(), 1.0)?;
    }
    c.class_if(turns(it.ty).iter().any(|x| f(it, x) != 0.0), "turned");
    c.class_if(s == 12, "full detail");
    Ok(())
}
fn rubbers(t: &mut Tape, c: &mut Case) -> Res {
    let it = rubber(t, c, 0);
    let tb = table(t, vec![it]);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams());
    c.nontrivial = true;
    let w = scene(&tb)?;
    check_rubber(&tb, &w, 0, c)
}

// ---- flashers and light inserts

fn check_flasher(tb: &Table, w: &World, i: usize, c: &mut Case) -> Res {
    let it = &tb.items[i];
    let p = points(it);
    let (pts, smooth) = xy(&p);
    let Some((n, m)) = node(w, i, "")? else { return Err("the flasher is missing".into()) };
    finite(m)?;
    let m = unturned(it, n, m);
    let out: Vec<P2> = m.pos.iter().map(|q| [q[0], q[1]]).collect();
    follow_within(&out, &pts, &smooth, true, 4.0, 1e-3)?;
    let (lo, hi) = m.bounds();
    for k in 0..2 {
        ensure!(near((lo[k] + hi[k]) / 2.0, n.at[k], 2e-3), "the flasher reaches from {lo:?} to {hi:?} around {:?}", n.at);
    }
    ensure!(near(n.at[2], f(it, "FHEI"), 1e-3), "the flasher is at {:?}", n.at);
    let [l, tp, r, bt] = if e(it, "ALGN") == 0 { dims(tb) } else { [lo[0], lo[1], hi[0], hi[1]] };
    for (k, q) in m.pos.iter().enumerate() {
        ensure!(near(q[2], n.at[2], 1e-3), "vertex {k} is out of the plane: {q:?}");
        ensure!(len(sub(m.nrm[k], [0.0, 0.0, 1.0])) < 1e-4, "vertex {k} faces {:?}", m.nrm[k]);
        let uv = [(q[0] - l) / (r - l), (q[1] - tp) / (bt - tp)];
        ensure!(dist(uv, m.uv[k]) < 2e-3 * (1.0 + uv[0].abs() + uv[1].abs()), "vertex {k} at {q:?} shows {:?} of the image, expected {uv:?}", m.uv[k]);
    }
    faces_agree(&m)?;
    covers(&out, &m.tri, c)?;
    c.class_if(turns(it.ty).iter().any(|x| f(it, x) != 0.0), "turned");
    c.class(if e(it, "ALGN") == 0 { "image over the table" } else { "image over the part" });
    Ok(())
}
fn check_insert(tb: &Table, w: &World, i: usize, c: &mut Case) -> Res {
    let it = &tb.items[i];
    let p = points(it);
    let (pts, smooth) = xy(&p);
    let Some((n, m)) = node(w, i, "_insert")? else { return Err("the insert is missing".into()) };
    finite(m)?;
    let out: Vec<P2> = m.pos.iter().map(|q| [q[0], q[1]]).collect();
    follow_within(&out, &pts, &smooth, true, 4.0, 1e-3)?;
    let (lo, hi) = m.bounds();
    for k in 0..2 {
        ensure!(near((lo[k] + hi[k]) / 2.0, n.at[k], 2e-3), "the insert reaches from {lo:?} to {hi:?} around {:?}", n.at);
    }
    let at = xyz(it, "VCEN");
    let far = out.iter().map(|q| dist(*q, [at[0], at[1]])).fold(0.0, f64::max);
    let [l, tp, r, bt] = dims(tb);
    let image = !s(it, "IMG1").is_empty();
    for (k, q) in m.pos.iter().enumerate() {
        ensure!(near(q[2], n.at[2], 1e-4), "vertex {k} is out of the plane: {q:?}");
        ensure!(m.nrm[k] == [0.0, 0.0, 1.0], "vertex {k} faces {:?}", m.nrm[k]);
        let uv = if image { [q[0] / (r - l), q[1] / (bt - tp)] } else { [0.5 + (q[0] - at[0]) * 0.5 / far, 0.5 + (q[1] - at[1]) * 0.5 / far] };
        ensure!(dist(uv, m.uv[k]) < 1e-3 * (1.0 + uv[0].abs() + uv[1].abs()), "vertex {k} at {q:?} shows {:?} of the image, expected {uv:?}", m.uv[k]);
    }
    faces_agree(m)?;
    covers(&out, &m.tri, c)?;
    c.class(if image { "image over the table" } else { "image around the centre" });
    Ok(())
}
fn flat(t: &mut Tape, c: &mut Case, i: usize, ty: u32) -> Item {
    let mut it = part(t, i, ty);
    named(&mut it, i);
    let mut p = outline(t, c);
    coincide(t, c, &mut p);
    set_points(t, &mut it, &p);
    if ty == 7 {
        it.set("BGLS", Val::Bool(false));
        it.set("VSBL", Val::Bool(true));
        it.set("BULT", Val::Bool(false));
    }
    for tag in turns(it.ty) {
        if t.chance(1, 3) {
            it.set_f(tag, 0.0);
        }
    }
    it
}
fn flats(t: &mut Tape, c: &mut Case) -> Res {
    let a = flat(t, c, 0, 20);
    let b = flat(t, c, 1, 7);
    let tb = table(t, vec![a, b]);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams());
    c.nontrivial = true;
    let Some(w) = scene_of_outlines(&tb, c)? else { return Ok(()) };
    check_flasher(&tb, &w, 0, c).map_err(|e| format!("flasher: {e}"))?;
    check_insert(&tb, &w, 1, c).map_err(|e| format!("light insert: {e}"))
}

// ---- ramps

/// The part and a flat one of width 2 along the same points.
fn ramp(t: &mut Tape, c: &mut Case) -> Vec<Item> {
    let mut it = part(t, 0, 12);
    named(&mut it, 0);
    let mut p = path(t);
    if t.chance(1, 6) {
        c.class("right angles");
        let (mut x, mut y) = (grid(t.range(100, 800) as f64), grid(t.range(100, 1900) as f64));
        let first = t.bool();
        p = (0..t.usize(2, 6))
            .map(|k| {
                let d = t.range(8, 90) as f32 * if t.bool() { 1.0 } else { -1.0 };
                if (k % 2 == 0) == first { x += d } else { y += d }
                P { x, y, z: 0.0, smooth: false }
            })
            .collect();
    }
    if t.chance(1, 4) {
        c.class("level");
        for q in p.iter_mut() {
            q.z = 0.0;
        }
        let h = f(&it, "HTBT") as f32;
        it.set_f("HTTP", h);
    }
    coincide(t, c, &mut p);
    set_points(t, &mut it, &p);
    let mut twin = it.clone();
    named(&mut twin, 1);
    let ty = Val::Enum(0);
    twin.set("TYPE", ty);
    for tag in ["WDBT", "WDTP"] {
        twin.set_f(tag, 2.0);
    }
    for tag in ["WVHL", "WVHR"] {
        twin.set_f(tag, 0.0);
    }
    vec![it, twin]
}
/// Middles and half widths of the floor from the first vertices of a ramp.
fn floor(m: &Mesh, rings: usize) -> (Vec<[f64; 3]>, Vec<[f64; 3]>) {
    (0..rings).map(|i| (m.pos[2 * i], m.pos[2 * i + 1])).map(|(r, l)| (add(r, l).map(|x| x / 2.0), sub(r, l).map(|x| x / 2.0))).unzip()
}
/// How far along a path its points are, from 0 to 1.
fn along(mid: &[[f64; 3]]) -> Vec<f64> {
    let mut o = vec![0.0];
    for w in mid.windows(2) {
        o.push(o.last().unwrap() + dist([w[0][0], w[0][1]], [w[1][0], w[1][1]]));
    }
    let total = *o.last().unwrap();
    o.iter().map(|x| if total > 0.0 { x / total } else { 0.0 }).collect()
}
fn check_twin(it: &Item, m: &Mesh, c: &mut Case) -> Result<(Vec<[f64; 3]>, Vec<[f64; 3]>, Vec<f64>), String> {
    finite(m)?;
    ensure!(m.pos.len() % 2 == 0 && m.pos.len() >= 4, "{} vertices", m.pos.len());
    let n = m.pos.len() / 2;
    let (mid, half) = floor(m, n);
    let pct = along(&mid);
    let (lo, hi) = (f(it, "HTBT"), f(it, "HTTP"));
    let p = points(it);
    let pts: Vec<[f64; 3]> = p.iter().map(|q| [q.x as f64, q.y as f64, q.z as f64]).collect();
    let smooth: Vec<bool> = p.iter().map(|q| q.smooth).collect();
    let out: Vec<[f64; 3]> = mid.iter().zip(&pct).map(|(q, k)| [q[0], q[1], q[2] - lo - k * (hi - lo)]).collect();
    follow_within(&out, &pts, &smooth, false, 4.0, 2e-3).map_err(|e| format!("centre line: {e}"))?;
    for i in 0..n {
        let normal = |a: usize, b: usize| -> Option<[f64; 3]> {
            let d = sub(mid[b], mid[a]);
            let l = (d[0] * d[0] + d[1] * d[1]).sqrt();
            if l < 0.05 { None } else { Some([-d[1] / l, d[0] / l, l]) }
        };
        ensure!(near(half[i][2], 0.0, 1e-3), "ring {i}: the floor is not level across");
        let n1 = if i > 0 { normal(i - 1, i) } else { normal(0, 1) };
        let n2 = if i + 1 < n { normal(i, i + 1) } else { n1 };
        let (Some(n1), Some(n2)) = (n1, n2) else {
            c.class("tiny step");
            continue;
        };
        let d = n1[0] * n2[0] + n1[1] * n2[1];
        if d < -0.9 {
            c.class("sharp turn");
            continue;
        }
        let want = [(n1[0] + n2[0]) / (1.0 + d), (n1[1] + n2[1]) / (1.0 + d)];
        let wl = (want[0] * want[0] + want[1] * want[1]).sqrt();
        let dir = want.map(|x| x / wl);
        let err = [half[i][0] - want[0], half[i][1] - want[1]];
        let across = err[0] * dir[0] + err[1] * dir[1];
        let off = err[0] * dir[1] - err[1] * dir[0];
        let slack = (2e-3 + 1e-3 / n1[2].min(n2[2])) * (1.0 + wl);
        ensure!(across.abs() < slack, "ring {i} of {n}: half a width is {across} off across (slack {slack}), at {:?} half {:?} expected {want:?}", mid[i], half[i]);
        ensure!(off.abs() < 2.0 * slack + 0.02, "ring {i} of {n}: half a width is {off} off along, at {:?} half {:?} expected {want:?}", mid[i], half[i]);
    }
    Ok((mid, half, pct))
}
fn opacity_active(tb: &Table, name: &str) -> bool {
    if name.is_empty() {
        return false;
    }
    let find = |ms: Vec<Mat>| ms.into_iter().find(|m| m.name.eq_ignore_ascii_case(name)).map(|m| m.active);
    let new = if tb.gd.iter().any(|x| x.tag == "MATR") { find(materials(tb)) } else { None };
    new.or_else(|| find(old_materials(tb))).unwrap_or(false)
}
fn check_ramp(tb: &Table, w: &World, c: &mut Case) -> Res {
    let it = &tb.items[0];
    let Some((_, tm)) = node(w, 1, "")? else { return Err("the flat ramp is missing".into()) };
    let (mid, half, pct) = check_twin(&tb.items[1], tm, c).map_err(|e| format!("floor of width 2: {e}"))?;
    let Some((_, m)) = node(w, 0, "")? else { return Err("the ramp is missing".into()) };
    finite(m)?;
    let n = mid.len();
    let ty = e(it, "TYPE");
    if ty == 0 {
        let (wl, wr) = (f(it, "WVHL"), f(it, "WVHR"));
        let mut parts = vec!["floor"];
        if wr > 0.0 {
            parts.push("right");
        }
        if wl > 0.0 {
            parts.push("left");
        }
        c.class(match parts.len() {
            1 => "flat",
            2 => "one wall",
            _ => "two walls",
        });
        ensure!(m.pos.len() == 2 * n * parts.len() && m.tri.len() == 2 * (n - 1) * parts.len(), "{} vertices and {} triangles for {n} rings of {parts:?}", m.pos.len(), m.tri.len());
        let image = !s(it, "IMAG").is_empty();
        let world = e(it, "ALGN") == 0;
        let [l, tp, r, bt] = dims(tb);
        for (k, part) in parts.iter().enumerate() {
            let first = 2 * n * k;
            for i in 0..n {
                let wd = (f(it, "WDBT") + pct[i] * (f(it, "WDTP") - f(it, "WDBT"))) / 2.0;
                let at = |sg: f64, h: f64| [mid[i][0] + sg * wd * half[i][0], mid[i][1] + sg * wd * half[i][1], mid[i][2] + h];
                let want = match *part {
                    "floor" => [at(1.0, 0.0), at(-1.0, 0.0)],
                    "right" => [at(1.0, 0.0), at(1.0, wr)],
                    _ => [at(-1.0, 0.0), at(-1.0, wl)],
                };
                for j in 0..2 {
                    let v = first + 2 * i + j;
                    ensure!(len(sub(m.pos[v], want[j])) < 2e-2, "{part}: vertex {j} of ring {i} is at {:?}, expected {:?}", m.pos[v], want[j]);
                    let q = m.pos[v];
                    let uv = match (*part, image) {
                        ("floor", true) if world => [q[0] / (r - l), q[1] / (bt - tp)],
                        ("floor", true) => [1.0 - j as f64, 1.0 - pct[i]],
                        (_, true) if *part != "floor" && b(it, "IMGW", false) => [0.0, 1.0 - pct[i]],
                        _ => [0.0, 0.0],
                    };
                    ensure!(dist(uv, m.uv[v]) < 1e-3 * (1.0 + uv[0].abs() + uv[1].abs()), "{part}: vertex {j} of ring {i} shows {:?} of the image, expected {uv:?}", m.uv[v]);
                }
            }
            let mut seen = vec![0; n - 1];
            for x in m.tri.iter().filter(|x| x.iter().all(|v| (first..first + 2 * n).contains(v))) {
                let r = x.map(|v| (v - first) / 2);
                let i = *r.iter().min().unwrap();
                ensure!(*r.iter().max().unwrap() == i + 1 && x[0] != x[1] && x[1] != x[2] && x[0] != x[2], "{part}: triangle {x:?}");
                seen[i] += 1;
            }
            ensure!(seen.iter().all(|x| *x == 2), "{part}: the pieces have {seen:?} triangles");
            let mut sense = 0;
            for i in 0..n - 1 {
                let a = first + 2 * i;
                let own: Vec<[usize; 3]> = m.tri.iter().filter(|x| x.iter().all(|v| (a..a + 4).contains(v))).copied().collect();
                let sg = tiles(&own, [a, a + 1, a + 3, a + 2]).map_err(|e| format!("{part}: {e}"))?;
                ensure!(sense == 0 || sg == sense, "{part}: piece {i} is seen from the other side than the first");
                sense = sg;
            }
            mean_normals(m, first..first + 2 * n, 1.0).map_err(|e| format!("{part}: {e}"))?;
        }
        unit_normals(m, true)?;
        return Ok(());
    }
    let sg = ring_corners(detail(tb), !opacity_active(tb, &s(it, "MATR")));
    let (dia, dx, dy) = (f(it, "RADI"), f(it, "RADX"), f(it, "RADY"));
    let (low, up) = (3.0, dy / 2.0);
    // (side, raised by) of every wire
    let wires: Vec<(f64, f64)> = match ty {
        1 => vec![(1.0, low), (-1.0, low), (1.0, up), (-1.0, up)],
        2 => vec![(1.0, low), (-1.0, low)],
        3 => vec![(1.0, low), (-1.0, low), (-1.0, up)],
        4 => vec![(1.0, low), (-1.0, low), (1.0, up)],
        _ => vec![(1.0, 0.0)],
    };
    c.class(["", "four wires", "two wires", "three wires left", "three wires right", "one wire"][ty as usize]);
    c.class_if(sg == 12, "full detail");
    ensure!(m.pos.len() == wires.len() * n * sg && m.tri.len() == wires.len() * 2 * (n - 1) * sg, "{} vertices and {} triangles for {} wires of {n} rings of {sg}", m.pos.len(), m.tri.len(), wires.len());
    for (k, (side, dz)) in wires.iter().enumerate() {
        let tube = Tube { m, first: k * n * sg, rings: n, corners: sg, radius: dia / 2.0 };
        let centres = tube.centres();
        let wd = if ty == 5 { 1.0 } else { dx / 2.0 };
        for i in 0..n {
            let want = [mid[i][0] + side * wd * half[i][0], mid[i][1] + side * wd * half[i][1], mid[i][2] + dz];
            ensure!(len(sub(centres[i], want)) < 2e-2, "wire {k}: ring {i} is around {:?}, expected {want:?}", centres[i]);
        }
        let tan: Vec<[f64; 3]> = (0..n)
            .map(|i| {
                if i + 1 < n {
                    sub(centres[i + 1], centres[i])
                } else {
                    let d = sub(centres[i], centres[i - 1]);
                    [d[0], d[1], 0.0]
                }
            })
            .collect();
        if tan.iter().any(|x| len(*x) < 0.02) {
            // the inner wire of a bend may shrink to a point, which has no direction
            c.class("wire without direction");
            continue;
        }
        tube.check(&tan, false, c).map_err(|e| format!("wire {k}: {e}"))?;
        for i in 0..n * sg {
            let v = k * n * sg + i;
            let d = sub(m.pos[v], centres[i / sg]);
            ensure!(near(len(m.nrm[v]), 1.0, 2e-3), "wire {k}: the normal of vertex {i} is {:?}", m.nrm[v]);
            ensure!(dot(d, m.nrm[v]) / len(d) > 0.99, "wire {k}: vertex {i} faces {:?}, it lies towards {d:?}", m.nrm[v]);
        }
    }
    Ok(())
}
fn ramps(t: &mut Tape, c: &mut Case) -> Res {
    let items = ramp(t, c);
    let mut tb = table(t, items);
    let (mt, im) = (s(&tb.items[0], "MATR"), s(&tb.items[0], "IMAG"));
    tb.items[1].set("MATR", Val::Str(mt));
    tb.items[1].set("IMAG", Val::Str(im));
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams());
    c.nontrivial = true;
    let w = scene(&tb)?;
    check_ramp(&tb, &w, c)
}

// ---- built-in primitives

fn cylinders(t: &mut Tape, c: &mut Case) -> Res {
    let mut it = part(t, 0, 19);
    named(&mut it, 0);
    it.recs.retain(|x| !x.tag.starts_with("M3"));
    it.set("U3DM", Val::Bool(false));
    let n = match t.below(4) {
        0 => t.range(3, 6),
        1 => t.range(100, 400),
        _ => t.range(3, 60),
    } as usize;
    it.set("SIDS", Val::U32(n as u32));
    let one = v3(&it, "VSIZ", [1.0; 3]);
    it.set("VSIZ", one);
    let at = [q(t, 0, 900), q(t, 0, 2000), q(t, -50, 100)];
    let at = v3(&it, "VPOS", at);
    it.set("VPOS", at);
    for k in 0..9 {
        it.set_f(["RTV0", "RTV1", "RTV2", "RTV3", "RTV4", "RTV5", "RTV6", "RTV7", "RTV8"][k], 0.0);
    }
    let inside = b(&it, "DTXI", false);
    let tb = table(t, vec![it]);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams());
    c.nontrivial = true;
    c.class(if n % 2 == 0 { "even" } else { "odd" });
    c.class_if(inside, "inside too");
    let w = scene(&tb)?;
    let Some((nd, m)) = node(&w, 0, "")? else { return Err("the primitive is missing".into()) };
    finite(m)?;
    unit_normals(m, false)?;
    ensure!(m.pos.len() == 4 * n + 2, "{} vertices for {n} sides", m.pos.len());
    ensure!(m.tri.len() == 4 * n * (1 + inside as usize), "{} triangles for {n} sides", m.tri.len());
    let r = 0.5 / (std::f64::consts::PI / n as f64).cos();
    let mut caps = [0; 2];
    let mut walls = [0; 2];
    let mut corners = [vec![], vec![]];
    for (i, p) in m.pos.iter().enumerate() {
        let d = sub(*p, nd.at);
        let flat = (d[0] * d[0] + d[1] * d[1]).sqrt();
        ensure!(near(d[2].abs(), 0.5, 1e-3), "vertex {i} at {d:?} is neither at the top nor at the bottom");
        let top = (d[2] < 0.0) as usize;
        let up = m.nrm[i][2];
        if flat < 1e-3 {
            ensure!(near(up, d[2] * 2.0, 1e-3), "the middle of a cap at {d:?} faces {:?}", m.nrm[i]);
            ensure!(dist(m.uv[i], [0.25 + 0.5 * top as f64, 0.25]) < 0.26, "the middle of a cap shows {:?}", m.uv[i]);
            caps[top] += 1;
            continue;
        }
        ensure!(near(flat, r, 1e-3), "vertex {i} is {flat} from the axis, expected {r}");
        // corners are half a side away from the y axis
        let a = d[0].atan2(d[1]) / std::f64::consts::TAU * n as f64;
        let k = a + if n % 2 == 0 { 0.5 } else { 0.0 };
        ensure!(near(k, k.round(), 1e-3 * n as f64), "vertex {i} is a corner at {a} of {n}");
        if up.abs() > 0.5 {
            ensure!(near(up, d[2] * 2.0, 1e-3), "a corner of a cap at {d:?} faces {:?}", m.nrm[i]);
            corners[top].push((d, m.uv[i]));
        } else {
            let radial = (m.nrm[i][0] * d[0] + m.nrm[i][1] * d[1]) / flat;
            ensure!(near(radial.abs(), 1.0, 5e-3), "the side at {d:?} faces {:?}", m.nrm[i]);
            ensure!(near(m.uv[i][1], if top == 0 { 0.5 } else { 1.0 }, 1e-4), "the side at {d:?} shows {:?}", m.uv[i]);
            walls[top] += 1;
        }
    }
    ensure!(caps == [1, 1] && walls == [n, n] && corners[0].len() == n && corners[1].len() == n, "{caps:?} middles, {} and {} corners, {walls:?} sides", corners[0].len(), corners[1].len());
    // the caps show the upper half of the image, left and right
    for (k, cs) in corners.iter().enumerate() {
        let (x0, x1) = cs.iter().fold((9.0f64, -9.0f64), |(a, b), (d, _)| (a.min(d[0]), b.max(d[0])));
        let (y0, y1) = cs.iter().fold((9.0f64, -9.0f64), |(a, b), (d, _)| (a.min(d[1]), b.max(d[1])));
        for (d, uv) in cs {
            let want = [(d[0] - x0) / (x1 - x0) * 0.5 + 0.5 * k as f64, (d[1] - y0) / (y1 - y0) * 0.5];
            ensure!(dist(*uv, want) < 2e-3, "the corner of a cap at {d:?} shows {uv:?}, expected {want:?}");
        }
    }
    // closed, facing out; a second skin faces in
    let (mut out, mut inn) = (0.0, 0.0);
    let mut area = 0.0;
    for x in &m.tri {
        let [a, b2, c2] = x.map(|i| sub(m.pos[i], nd.at));
        let v = dot(a, cross(b2, c2)) / 6.0;
        area += len(cross(sub(b2, a), sub(c2, a))) / 2.0;
        if v > 0.0 { out += v } else { inn -= v }
    }
    let face = n as f64 * r * r * (std::f64::consts::TAU / n as f64).sin() / 2.0;
    let girth = 2.0 * n as f64 * r * (std::f64::consts::PI / n as f64).sin();
    let skins = 1.0 + inside as usize as f64;
    ensure!(near(area, skins * (2.0 * face + girth), 0.02), "a surface of {area}, expected {}", skins * (2.0 * face + girth));
    ensure!(near(out, face, 0.01) && near(inn, if inside { face } else { 0.0 }, 0.01), "it encloses {out} outwards and {inn} inwards, expected {face}");
    Ok(())
}

// ---- mesh files next to an expanded table

/// The mesh of a file, as stored.
fn mesh_of_file(files: &Files, path: &str) -> Result<Mesh, String> {
    let data = files.get(path).ok_or_else(|| format!("no file {path} in {:?}", files.keys().filter(|k| k.contains("gameitems/")).collect::<Vec<_>>()))?;
    let mut m = Mesh::default();
    if path.ends_with(".obj") {
        let o = objx::parse(data)?;
        ensure!(o.objects.len() == 1, "{path}: {} objects", o.objects.len());
        let (nv, nt, nn) = (o.v.len(), o.vt.len(), o.vn.len());
        ensure!(nv == nt && nv == nn, "{path}: {nv} places, {nt} texture places, {nn} normals");
        m.pos = o.v.iter().map(|p| [p[0], p[1], -p[2]]).collect();
        m.nrm = o.vn.iter().map(|p| [p[0], p[1], -p[2]]).collect();
        m.uv = o.vt.iter().map(|p| [p[0], 1.0 - p[1]]).collect();
        for (_, cs) in &o.objects[0].faces {
            ensure!(cs.len() == 3 && cs.iter().all(|(p, t, n)| *t == Some(*p) && *n == Some(*p)), "{path}: face {cs:?}");
            m.tri.push([cs[2].0, cs[1].0, cs[0].0]);
        }
        return Ok(m);
    }
    let d = doc_of(files, path)?;
    let nodes: Vec<_> = d.arr("nodes").iter().filter(|n| !n["mesh"].is_null()).collect();
    ensure!(d.arr("meshes").len() == 1 && nodes.len() == 1, "{path}: {} meshes", d.arr("meshes").len());
    ensure!(["translation", "rotation", "scale", "matrix"].iter().all(|k| nodes[0][*k].is_null()), "{path}: the mesh is moved");
    let p = &d.arr("meshes")[0]["primitives"][0];
    let at = |k: &str| -> Result<Vec<Vec<f64>>, String> { d.rows(p["attributes"][k].as_u64().ok_or(format!("{path}: no {k}"))? as usize) };
    m.pos = at("POSITION")?.iter().map(|r| [r[0], r[1], r[2]]).collect();
    m.nrm = at("NORMAL")?.iter().map(|r| [r[0], r[1], r[2]]).collect();
    m.uv = at("TEXCOORD_0")?.iter().map(|r| [r[0], r[1]]).collect();
    let ix = d.rows(p["indices"].as_u64().ok_or(format!("{path}: no indices"))? as usize)?;
    m.tri = ix.chunks(3).map(|x| [x[0][0] as usize, x[1][0] as usize, x[2][0] as usize]).collect();
    Ok(m)
}
fn same_shape(file: &Mesh, want: &Mesh, uv: bool) -> Res {
    ensure!(file.pos.len() == want.pos.len(), "the file has {} vertices, the scene {}", file.pos.len(), want.pos.len());
    for i in 0..file.pos.len() {
        ensure!(len(sub(file.pos[i], want.pos[i])) < 2e-3, "vertex {i} is at {:?} in the file, at {:?} in the scene", file.pos[i], want.pos[i]);
        ensure!(len(sub(file.nrm[i], want.nrm[i])) < 2e-3, "vertex {i} faces {:?} in the file, {:?} in the scene", file.nrm[i], want.nrm[i]);
        ensure!(!uv || dist(file.uv[i], want.uv[i]) < 1e-4 * (1.0 + want.uv[i][0].abs() + want.uv[i][1].abs()), "vertex {i} shows {:?} in the file, {:?} in the scene", file.uv[i], want.uv[i]);
    }
    // the scene's faces may start at another corner
    let canon = |m: &Mesh| -> Vec<[usize; 3]> { m.tri.iter().map(|x| { let k = (0..3).min_by_key(|k| x[*k]).unwrap(); [x[k], x[(k + 1) % 3], x[(k + 2) % 3]] }).collect() };
    let (a, b) = (canon(file), canon(want));
    ensure!(a.len() == b.len(), "the file has {} triangles, the scene {}", a.len(), b.len());
    for (k, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!(x == y, "triangle {k} is {x:?} in the file, {y:?} in the scene");
    }
    Ok(())
}
fn joined(a: &Mesh, b: &Mesh) -> Mesh {
    let mut m = a.clone();
    let n = m.pos.len();
    m.pos.extend(&b.pos);
    m.nrm.extend(&b.nrm);
    m.uv.extend(&b.uv);
    m.tri.extend(b.tri.iter().map(|x| x.map(|i| i + n)));
    m
}
fn mesh_files(t: &mut Tape, c: &mut Case) -> Res {
    let mut items = vec![wall(t, c, 0), rubber(t, c, 1), flat(t, c, 2, 20), ramp(t, c).remove(0)];
    named(&mut items[3], 3);
    for k in ["VSBL", "SVBL"] {
        let on = t.bool();
        items[0].set(k, Val::Bool(on));
    }
    let order = t.perm(4);
    let items: Vec<Item> = order.iter().map(|i| items[*i].clone()).collect();
    let mut tb = table(t, items);
    // what the files are made for
    for (k, x) in [("LEFT", 0.0f32), ("TOPX", 0.0), ("RGHT", 952.0), ("BOTM", 2162.0)] {
        tb.gd_set(k, fv(x));
    }
    tb.gd_set("OGAC", Val::Bool(false));
    let fmt = t.below(3);
    c.class(["obj", "glb", "gltf"][fmt as usize]);
    c.sample = Some(summary(&tb));
    c.hash = (streams_hash(&tb.streams()), fmt).0 ^ fmt;
    c.nontrivial = true;
    let Some(w) = scene_of_outlines(&tb, c)? else { return Ok(()) };
    let files = guard(|| expand(&parse(&tb.streams())?, fmt, true))??;
    for (i, o) in order.iter().enumerate() {
        let it = &tb.items[i];
        let kind = ["Wall", "Rubber", "Flasher", "Ramp"][*o];
        let path = format!("{ROOT}/gameitems/{kind}.Part_{o}-generated.{}", ["obj", "glb", "gltf"][fmt as usize]);
        let want = match *o {
            0 => {
                let (top, side) = (node(&w, i, "Top")?, node(&w, i, "Side")?);
                let (Some((_, top)), Some((_, side))) = (top, side) else { return Err("the wall is missing in the scene".into()) };
                let shown = (b(it, "VSBL", true), b(it, "SVBL", true));
                c.class(match shown {
                    (true, false) => "top only",
                    (false, true) => "sides only",
                    _ => "top and sides",
                });
                match shown {
                    (true, false) => top.clone(),
                    (false, true) => side.clone(),
                    _ => joined(side, top),
                }
            }
            k => {
                let Some((n, m)) = node(&w, i, "")? else { return Err(format!("{kind} is missing in the scene")) };
                if k == 3 && e(it, "TYPE") != 0 && opacity_active(&tb, &s(it, "MATR")) {
                    // the file is made for opaque material
                    c.class("transparent wires");
                    ensure!(files.contains_key(&path), "no file {path}");
                    continue;
                }
                // on its own, around the origin
                if k == 3 { m.clone() } else { Mesh { pos: m.pos.iter().map(|p| sub(*p, n.at)).collect(), ..m.clone() } }
            }
        };
        let m = mesh_of_file(&files, &path)?;
        finite(&m).map_err(|e| format!("{path}: {e}"))?;
        same_shape(&m, &want, *o != 0).map_err(|e| format!("{path}: {e}"))?;
        if *o == 0 && b(it, "VSBL", true) == b(it, "SVBL", true) {
            // the image lies over the bounds of the top
            let n = m.pos.len() / 5 * 4;
            let (x0, x1) = m.pos.iter().fold((9e9f64, -9e9f64), |(a, b), p| (a.min(p[0]), b.max(p[0])));
            let (y0, y1) = m.pos.iter().fold((9e9f64, -9e9f64), |(a, b), p| (a.min(p[1]), b.max(p[1])));
            for i in n..m.pos.len() {
                let uv = [(m.pos[i][0] - x0) / (x1 - x0), (m.pos[i][1] - y0) / (y1 - y0)];
                ensure!(dist(uv, m.uv[i]) < 1e-3, "{path}: vertex {i} of the top shows {:?} of the image, expected {uv:?}", m.uv[i]);
            }
        }
    }
    Ok(())
}

/// The mesh files of parts made from built-in shapes, and those of hidden ones left out.
fn part_files(t: &mut Tape, c: &mut Case) -> Res {
    let types = [1u32, 3, 5, 6, 7, 10, 11, 22];
    let n = t.usize(1, 4);
    let mut items = vec![];
    for i in 0..n {
        let ty = *t.pick(&types);
        let mut it = part(t, i, ty);
        named(&mut it, i);
        for k in ["VSBL", "GVSB", "SVIS", "TVIS", "CAVI", "BSVS", "RIVS", "SKVS", "GSUP", "SSUP", "SHBM"] {
            if it.get(k).is_some() {
                let on = t.chance(4, 5);
                it.set(k, Val::Bool(on));
            }
        }
        items.push(it);
    }
    let tb = table(t, items);
    let fmt = t.below(3);
    let ext = ["obj", "glb", "gltf"][fmt as usize];
    c.class(ext);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams()) ^ fmt;
    // the shapes of the parts shown
    let mut shown = tb.items.clone();
    for it in &mut shown {
        for k in ["VSBL", "GVSB", "SVIS", "TVIS"] {
            it.set(k, Val::Bool(true));
        }
    }
    let mut sb = tb.clone();
    sb.items = shown;
    sb.version = 1081;
    let w = scene(&sb)?;
    let files = guard(|| expand(&parse(&tb.streams())?, fmt, true))??;
    // by part: how the names end is not specified
    let mut left: std::collections::BTreeMap<String, &String> = files.keys().filter(|k| k.contains("/gameitems/") && k.ends_with(&format!(".{ext}"))).map(|k| (k.rsplit('/').next().unwrap().replace(&format!(".{ext}"), "").replace(".json", "").replace("-generated", ""), k)).collect();
    for (i, it) in tb.items.iter().enumerate() {
        let on = |k: &str| b(it, k, true);
        let (kind, parts): (&str, Vec<(&'static str, bool)>) = match it.ty {
            1 => ("Flipper", vec![("Base", on("VSBL"))]),
            3 => ("Plunger", ["Flat", "Rod", "Spring", "Ring", "Tip"].map(|p| (p, on("VSBL"))).to_vec()),
            5 => ("Bumper", [("Base", "BSVS"), ("Socket", "SKVS"), ("Ring", "RIVS"), ("Cap", "CAVI")].map(|(p, k)| (p, on(k))).to_vec()),
            6 => ("Trigger", vec![("", on("VSBL"))]),
            7 => ("Light", ["_bulb", "_socket"].map(|p| (p, b(it, "SHBM", false) && !b(it, "BGLS", false))).to_vec()),
            10 => ("Gate", vec![("Bracket", on("GVSB") && on("GSUP")), ("Wire", on("GVSB"))]),
            11 => ("Spinner", vec![("Bracket", on("SSUP")), ("Plate", true)]),
            _ => ("HitTarget", vec![("", on("TVIS"))]),
        };
        c.class(kind);
        for (part, on) in parts {
            let key = match part {
                "" => format!("{kind}.Part_{i}"),
                _ if it.ty == 1 => format!("{kind}.Part_{i}"),
                _ => format!("{kind}.Part_{i}-{}", part.trim_start_matches('_').to_lowercase()),
            };
            let path = left.remove(&key);
            // no such part
            let at = if on { node(&w, i, part).unwrap_or(None) } else { None };
            let Some((nd, m)) = at else {
                c.class_if(!on, "hidden part");
                ensure!(path.is_none(), "{path:?}: the table does not show it");
                continue;
            };
            let Some(path) = path else { return Err(format!("no file for {part:?} of {kind} {i} in {:?}", files.keys().filter(|k| k.contains("/gameitems/")).collect::<Vec<_>>())) };
            c.nontrivial = true;
            let rubber = if it.ty == 1 { node(&w, i, "Rubber").unwrap_or(None) } else { None };
            c.class_if(rubber.is_some(), "flipper with rubber");
            let mut want = rubber.map_or_else(|| m.clone(), |r| joined(m, r.1));
            // around the origin, flippers in their place
            let o = if it.ty == 1 { [0.0, 0.0, nd.at[2]] } else { nd.at };
            want.pos.iter_mut().for_each(|p| *p = sub(*p, o));
            if it.ty == 10 && part == "Wire" {
                // documented: not scaled by the gate's length
                let l = f(it, "LGTH");
                want.pos.iter_mut().for_each(|p| *p = p.map(|x| x / l));
            }
            let got = mesh_of_file(&files, path)?;
            finite(&got).map_err(|e| format!("{path}: {e}"))?;
            same_shape(&got, &want, true).map_err(|e| format!("{path}: {e}"))?;
        }
    }
    ensure!(left.is_empty(), "files of no part of the table: {left:?}");
    Ok(())
}

/// What the public functions build from one part: the pieces the table shows, as it shows them.
fn part_functions(t: &mut Tape, c: &mut Case) -> Res {
    use vpin::vpx::gameitem::GameItemEnum as G;
    use vpin::vpx::mesh::*;
    // the type of faces cannot be named
    macro_rules! mesh {
        ($m:expr) => {
            $m.map(|(v, f)| Mesh {
                pos: v.iter().map(|v| [v.vertex.x as f64, v.vertex.y as f64, v.vertex.z as f64]).collect(),
                nrm: v.iter().map(|v| [v.vertex.nx as f64, v.vertex.ny as f64, v.vertex.nz as f64]).collect(),
                uv: v.iter().map(|v| [v.vertex.tu as f64, v.vertex.tv as f64]).collect(),
                tri: f.iter().map(|f| [f.i0 as usize, f.i1 as usize, f.i2 as usize]).collect(),
            })
        };
    }
    let ty = *t.pick(&[1u32, 1, 3, 3, 5, 6, 7, 8, 10, 11, 22]);
    let mut it = part(t, 0, ty);
    named(&mut it, 0);
    for k in ["VSBL", "GVSB", "SVIS", "TVIS", "CAVI", "BSVS", "RIVS", "SKVS", "GSUP", "SSUP", "SHBM"] {
        if it.get(k).is_some() {
            let on = t.chance(3, 4);
            it.set(k, Val::Bool(on));
        }
    }
    let rise = t.range(-200, 400) as f64;
    let tb = table(t, vec![it]);
    let it = &tb.items[0];
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams()) ^ rise.to_bits();
    let mut sb = tb.clone();
    for k in ["VSBL", "GVSB", "SVIS", "TVIS"] {
        sb.items[0].set(k, Val::Bool(true));
    }
    sb.version = 1081;
    let w = scene(&sb)?;
    let v = parse(&tb.streams())?;
    let on = |k: &str| b(it, k, true);
    let at = |p: &'static str| node(&w, 0, p).unwrap_or(None);
    // piece, what was built, whether the table shows it
    let pieces: Vec<(&'static str, Option<Mesh>, bool)> = guard(|| match &v.gameitems[0] {
        G::Flipper(x) => {
            let m = flippers::build_flipper_meshes(x, rise as f32);
            if let (Some(m), Some((n, _))) = (&m, at("Base")) {
                ensure!(len(sub([m.center.x as f64, m.center.y as f64, 0.0], [n.at[0], n.at[1], 0.0])) < 2e-3 && m.center.z == rise as f32, "the flipper turns around {:?}", m.center);
            }
            let center = m.as_ref().map_or([0.0; 3], |m| [m.center.x as f64, m.center.y as f64, 0.0]);
            let (base, rubber) = m.map_or((None, None), |m| (Some(m.base), m.rubber));
            // as one mesh, in its place
            let one = mesh!(flippers::build_flipper_mesh(x, rise as f32)).map(|mut m| {
                m.pos.iter_mut().for_each(|p| *p = sub(*p, center));
                m
            });
            let both = mesh!(base.clone()).map(|b| mesh!(rubber.clone()).map_or_else(|| b.clone(), |r| joined(&b, &r)));
            match (&one, &both) {
                (Some(a), Some(b)) => same_shape(a, b, true).map_err(|e| format!("the flipper as one mesh: {e}"))?,
                (a, b) => ensure!(a.is_none() && b.is_none(), "the flipper is built {} as one mesh", if a.is_some() { "only" } else { "not" }),
            }
            Ok(vec![("Base", mesh!(base), on("VSBL")), ("Rubber", mesh!(rubber), on("VSBL"))])
        }
        G::Plunger(x) => {
            let m = plungers::build_plunger_meshes(x);
            Ok(vec![("Flat", mesh!(m.flat_rod), on("VSBL")), ("Rod", mesh!(m.rod), on("VSBL")), ("Spring", mesh!(m.spring), on("VSBL")), ("Ring", mesh!(m.ring), on("VSBL")), ("Tip", mesh!(m.tip), on("VSBL"))])
        }
        G::Bumper(x) => {
            let m = bumpers::build_bumper_meshes(x);
            Ok(vec![("Base", mesh!(m.base), on("BSVS")), ("Socket", mesh!(m.socket), on("SKVS")), ("Ring", mesh!(m.ring), on("RIVS")), ("Cap", mesh!(m.cap), on("CAVI"))])
        }
        G::Trigger(x) => Ok(vec![("", mesh!(triggers::build_trigger_mesh(x)), on("VSBL"))]),
        G::Light(x) => {
            let (bulb, socket) = lights::build_light_meshes(x).map_or((None, None), |m| (m.bulb, m.socket));
            let on = b(it, "SHBM", false) && !b(it, "BGLS", false);
            Ok(vec![("_bulb", mesh!(bulb), on), ("_socket", mesh!(socket), on)])
        }
        G::Kicker(x) => {
            let m = kickers::build_kicker_meshes(x);
            Ok(vec![("Plate", mesh!(m.plate), true), ("Kicker", mesh!(m.kicker), true)])
        }
        G::Gate(x) => {
            let (bracket, wire) = gates::build_gate_meshes(x).map_or((None, None), |m| (m.bracket, Some(m.wire)));
            Ok(vec![("Bracket", mesh!(bracket), on("GVSB") && on("GSUP")), ("Wire", mesh!(wire), on("GVSB"))])
        }
        G::Spinner(x) => {
            let m = spinners::build_spinner_meshes(x);
            Ok(vec![("Bracket", mesh!(m.bracket), on("SSUP")), ("Plate", mesh!(Some(m.plate)), true)])
        }
        G::HitTarget(x) => Ok(vec![("", mesh!(hittargets::build_hit_target_mesh(x)), on("TVIS"))]),
        _ => Err("another part was read".into()),
    })??;
    c.class(match ty { 1 => "flipper", 3 => "plunger", 5 => "bumper", 6 => "trigger", 7 => "light", 8 => "kicker", 10 => "gate", 11 => "spinner", _ => "target" });
    for (part, built, on) in pieces {
        let scene = if on { at(part) } else { None };
        let (Some(built), Some((n, m))) = (&built, scene) else {
            c.class_if(!on, "hidden piece");
            ensure!(built.is_none(), "{part:?} is built; the table does not show it");
            ensure!(scene.is_none(), "{part:?} is in the scene and is not built");
            continue;
        };
        c.nontrivial = true;
        let mut want = m.clone();
        let o = if ty == 1 { [n.at[0], n.at[1], n.at[2] - rise] } else { n.at };
        want.pos.iter_mut().for_each(|p| *p = sub(*p, o));
        if part == "Wire" {
            // documented: not scaled by the gate's length
            let l = f(it, "LGTH");
            want.pos.iter_mut().for_each(|p| *p = p.map(|x| x / l));
        }
        let got = built;
        finite(got).map_err(|e| format!("{part:?}: {e}"))?;
        same_shape(got, &want, true).map_err(|e| format!("{part:?}: {e}"))?;
        if ty == 3 {
            // one turn around the image, without leaving it
            for (i, uv) in got.uv.iter().enumerate() {
                ensure!((-1e-5..=1.00001).contains(&uv[0]), "{part:?}: vertex {i} shows {uv:?} of the image");
            }
        }
    }
    Ok(())
}

// ---- moved control points

fn moved(t: &mut Tape, c: &mut Case) -> Res {
    let mut items = vec![wall(t, c, 0), rubber(t, c, 1), flat(t, c, 2, 20), ramp(t, c).remove(0), flat(t, c, 4, 7)];
    named(&mut items[3], 3);
    let quarter = t.below(4) as usize;
    let (dx, dy) = (t.range(-300, 300) as f64, t.range(-300, 300) as f64);
    c.class(["shifted", "a quarter turn", "half a turn", "three quarters of a turn"][quarter]);
    let map = |p: [f64; 3]| {
        let (x, y) = (p[0] - 450.0, p[1] - 1000.0);
        let (x, y) = [(x, y), (-y, x), (-x, -y), (y, -x)][quarter];
        [x + 450.0 + dx, y + 1000.0 + dy, p[2]]
    };
    let spin = |n: [f64; 3]| [[n[0], n[1]], [-n[1], n[0]], [-n[0], -n[1]], [n[1], -n[0]]][quarter];
    for i in [1, 2] {
        for k in turns(items[i].ty) {
            if i == 1 || quarter != 0 {
                items[i].set_f(k, 0.0);
            }
        }
    }
    let mut tb = table(t, items);
    c.sample = Some(summary(&tb));
    c.hash = streams_hash(&tb.streams()) ^ quarter as u64;
    c.nontrivial = quarter != 0 || dx != 0.0 || dy != 0.0;
    let Some(w) = scene_of_outlines(&tb, c)? else { return Ok(()) };
    for i in 0..5 {
        let p: Vec<P> = points(&tb.items[i])
            .iter()
            .map(|q| {
                let m = map([q.x as f64, q.y as f64, 0.0]);
                P { x: m[0] as f32, y: m[1] as f32, ..*q }
            })
            .collect();
        let it = &mut tb.items[i];
        let mut k = 0;
        for x in it.recs.iter_mut().filter(|x| x.tag == "DPNT") {
            let Val::Sub(rs) = &mut x.val else { continue };
            for y in rs.iter_mut().filter(|y| y.tag == "VCEN") {
                y.val = Val::V2([p[k].x.to_bits(), p[k].y.to_bits()]);
            }
            k += 1;
        }
        ensure!(k == p.len() && points(it).iter().zip(&p).all(|(a, b)| a.x == b.x && a.y == b.y), "the points of part {i} were not moved");
    }
    let Some(v) = scene_of_outlines(&tb, c)? else { return Ok(()) };
    let sg = |i: usize| match i {
        1 => ring_corners(detail(&tb), b(&tb.items[1], "ESTR", true)),
        3 if e(&tb.items[3], "TYPE") != 0 => ring_corners(detail(&tb), !opacity_active(&tb, &s(&tb.items[3], "MATR"))),
        _ => 1,
    };
    for (i, part) in [(0, "Top"), (0, "Side"), (1, ""), (2, ""), (3, ""), (4, "_insert")] {
        let (Some((_, a)), Some((_, z))) = (node(&w, i, part)?, node(&v, i, part)?) else { return Err(format!("part {i} {part} is missing")) };
        if a.pos.len() != z.pos.len() {
            // a decision within rounding error about another point of the curve
            c.class("split differently");
            continue;
        }
        ensure!(a.tri.len() == z.tri.len() || !part.is_empty() || i == 2, "part {i} {part}: {} triangles, {} once moved", a.tri.len(), z.tri.len());
        let sg = sg(i);
        let mut few = 0;
        for k in (0..a.pos.len()).step_by(sg) {
            let mid = |m: &Mesh| m.pos[k..k + sg].iter().fold([0.0; 3], |x, y| add(x, *y)).map(|x| x / sg as f64);
            let want = map(mid(a));
            let mut d = sub(mid(z), want);
            if i == 1 || i == 4 {
                // the height of a rubber depends on how its rings lie, that of a light on the wall below
                d[2] = 0.0;
            }
            if len(d) > 4e-3 {
                few += 1;
                // rounding may decide twice about other points of the curve
                let near_by = (0..a.pos.len() / sg).any(|j| {
                    let at = |q: usize| {
                        let k = (q * sg) % a.pos.len();
                        let m = map(a.pos[k..k + sg].iter().fold([0.0; 3], |x, y| add(x, *y)).map(|x| x / sg as f64));
                        [m[0], m[1]]
                    };
                    let m = mid(z);
                    let strip = if i == 0 && part == "Side" { 4 } else if sg == 1 && i == 3 { 2 } else { 1 };
                    (1..=strip).any(|s| to_segment([m[0], m[1]], at(j), at(j + s)) < 1.5)
                });
                ensure!(near_by, "part {i} {part}: vertex {k} at {:?} is at {:?} once moved, expected {want:?}", mid(a), mid(z));
            }
            if sg == 1 && i != 3 && i != 1 && few == 0 {
                let n = spin(a.nrm[k]);
                let d = [n[0] - z.nrm[k][0], n[1] - z.nrm[k][1]];
                ensure!((d[0] * d[0] + d[1] * d[1]).sqrt() < 0.05 && near(a.nrm[k][2], z.nrm[k][2], 0.02), "part {i} {part}: vertex {k} facing {:?} faces {:?} once moved", a.nrm[k], z.nrm[k]);
            }
        }
        c.class_if(few > 0, "split differently");
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.assumptions.push("shapes are read from exported GLB files; coverage is checked for outlines that do not touch themselves".into());
    ctx.sub("walls", ctx.n(4000, 200000), "a wall with a top and sides; distinct by table contents", walls);
    ctx.sub("rubbers", ctx.n(4000, 200000), "a rubber; distinct by table contents", rubbers);
    ctx.sub("flashers and inserts", ctx.n(4000, 200000), "a flasher and a light; distinct by table contents", flats);
    ctx.sub("ramps", ctx.n(6000, 300000), "a ramp and a flat one of width 2; distinct by table contents", ramps);
    ctx.sub("cylinders", ctx.n(1500, 50000), "a primitive without mesh; distinct by table contents", cylinders);
    ctx.sub("moved", ctx.n(2500, 100000), "a wall, a rubber, a flasher, a ramp and a light, and the same shifted or turned by quarters; distinct by table contents", moved);
    ctx.sub("mesh files", ctx.n(2000, 80000), "an expanded table with a wall, a rubber, a flasher and a ramp; distinct by table contents and format", mesh_files);
    ctx.sub("part files", ctx.n(3000, 120000), "an expanded table with up to four parts made from built-in shapes; distinct by table contents and format", part_files);
    ctx.sub("part functions", ctx.n(4000, 150000), "a part of which a piece is shown; distinct by table contents and height", part_functions);
}
