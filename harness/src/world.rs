//! What an exported scene shows, in the coordinates of the table.

use crate::ensure;
use crate::gltfx::Doc;
use serde_json::Value;

#[derive(Clone, Debug, Default)]
pub struct Mesh {
    pub pos: Vec<[f64; 3]>,
    pub nrm: Vec<[f64; 3]>,
    pub uv: Vec<[f64; 2]>,
    pub tri: Vec<[usize; 3]>,
}

#[derive(Clone, Debug, Default)]
pub struct Node {
    pub name: String,
    /// names from the root down
    pub above: Vec<String>,
    /// where the node's origin is
    pub at: [f64; 3],
    /// in the table's coordinates
    pub mesh: Option<Mesh>,
    pub material: Option<usize>,
    pub light: Option<usize>,
    pub camera: Option<usize>,
    pub shown: bool,
    pub extras: Value,
}

fn three(v: &Value, d: f64) -> [f64; 3] {
    match v.as_array() {
        Some(a) => [0, 1, 2].map(|i| a[i].as_f64().unwrap_or(f64::NAN)),
        None => [d; 3],
    }
}
fn back(p: [f64; 3], unit: f64) -> [f64; 3] {
    [p[0] / unit, p[2] / unit, p[1] / unit]
}

/// The nodes of the scene, parents first, for a document in units of `unit` per table unit.
pub fn nodes(d: &Doc, unit: f64) -> Result<Vec<Node>, String> {
    let all = d.arr("nodes");
    let mut out = vec![];
    let scene = &d.arr("scenes")[d.json["scene"].as_u64().ok_or("no scene")? as usize];
    // index, translation, scale, shown, names above
    let mut todo: Vec<(usize, [f64; 3], [f64; 3], bool, Vec<String>)> = vec![];
    for x in scene["nodes"].as_array().ok_or("no scene nodes")?.iter().rev() {
        todo.push((x.as_u64().unwrap() as usize, [0.0; 3], [1.0; 3], true, vec![]));
    }
    let mut seen = 0;
    while let Some((i, t, s, shown, above)) = todo.pop() {
        seen += 1;
        let n = &all[i];
        let camera = n["camera"].as_u64().map(|x| x as usize);
        ensure!(n["matrix"].is_null() && (n["rotation"].is_null() || camera.is_some()), "node {i} is turned");
        let (lt, ls) = (three(&n["translation"], 0.0), three(&n["scale"], 1.0));
        let t = [0, 1, 2].map(|k| t[k] + s[k] * lt[k]);
        let s = [0, 1, 2].map(|k| s[k] * ls[k]);
        let shown = shown && n["extensions"]["KHR_node_visibility"]["visible"] != false;
        let name = n["name"].as_str().unwrap_or("").to_string();
        let mut mesh = None;
        let mut material = None;
        if let Some(m) = n["mesh"].as_u64() {
            let ps = d.arr("meshes")[m as usize]["primitives"].as_array().ok_or("no primitives")?;
            ensure!(ps.len() == 1, "{} primitives", ps.len());
            let p = &ps[0];
            let get = |k: &str| -> Result<Vec<Vec<f64>>, String> { d.rows(p["attributes"][k].as_u64().ok_or(format!("{name:?} has no {k}"))? as usize) };
            let v3 = |r: &Vec<f64>| [r[0], r[1], r[2]];
            let pos = get("POSITION")?.iter().map(|r| back([0, 1, 2].map(|k| t[k] + s[k] * v3(r)[k]), unit)).collect::<Vec<_>>();
            let nrm = get("NORMAL")?.iter().map(|r| [r[0], r[2], r[1]]).collect();
            let uv = get("TEXCOORD_0")?.iter().map(|r| [r[0], r[1]]).collect();
            let idx = d.rows(p["indices"].as_u64().ok_or("no indices")? as usize)?;
            let tri = idx.chunks_exact(3).map(|c| [c[0][0] as usize, c[2][0] as usize, c[1][0] as usize]).collect();
            mesh = Some(Mesh { pos, nrm, uv, tri });
            material = p["material"].as_u64().map(|x| x as usize);
        }
        let light = n["extensions"]["KHR_lights_punctual"]["light"].as_u64().map(|x| x as usize);
        out.push(Node { name: name.clone(), above: above.clone(), at: back(t, unit), mesh, material, light, camera, shown, extras: n["extras"].clone() });
        let mut above = above;
        above.push(name);
        if let Some(c) = n["children"].as_array() {
            for x in c.iter().rev() {
                todo.push((x.as_u64().unwrap() as usize, t, s, shown, above.clone()));
            }
        }
    }
    ensure!(seen == all.len(), "{} of {} nodes are outside the scene", all.len() - seen, all.len());
    Ok(out)
}

impl Mesh {
    pub fn bounds(&self) -> ([f64; 3], [f64; 3]) {
        let mut b = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
        for p in &self.pos {
            for k in 0..3 {
                b.0[k] = b.0[k].min(p[k]);
                b.1[k] = b.1[k].max(p[k]);
            }
        }
        b
    }
    pub fn area(&self) -> f64 {
        self.tri.iter().map(|t| len(cross(sub(self.pos[t[1]], self.pos[t[0]]), sub(self.pos[t[2]], self.pos[t[0]]))) / 2.0).sum()
    }
    /// Counts, bounds, means and area.
    pub fn signature(&self) -> Vec<f64> {
        let n = self.pos.len() as f64;
        let (lo, hi) = self.bounds();
        let mut o = vec![n, self.tri.len() as f64];
        o.extend(lo);
        o.extend(hi);
        for k in 0..3 {
            o.push(self.pos.iter().map(|p| p[k]).sum::<f64>() / n);
        }
        for k in 0..3 {
            o.push(self.nrm.iter().map(|p| p[k]).sum::<f64>() / n);
        }
        for k in 0..2 {
            o.push(self.uv.iter().map(|p| p[k]).sum::<f64>() / n);
        }
        o.push(self.area());
        o
    }
}
pub fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn dot(a: [f64; 3], b: [f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: [f64; 3]) -> f64 {
    dot(a, a).sqrt()
}
/// Turns around an axis (0 x, 1 y, 2 z), counter-clockwise seen from its end.
pub fn turn(p: [f64; 3], axis: usize, deg: f64) -> [f64; 3] {
    let (s, c) = deg.to_radians().sin_cos();
    let (a, b) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut o = p;
    o[a] = p[a] * c - p[b] * s;
    o[b] = p[a] * s + p[b] * c;
    o
}
