//! P12: mesh files mean the same geometry to other tools, both ways.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::gltfx::Doc;
use crate::objx;
use crate::p11::{primitive, same_mesh, stored, table_of};
use crate::tape::Tape;
use crate::tgen::MeshM;
use crate::wire::*;
use serde_json::{Value, json};
use std::fmt::Write as _;

fn finite(t: &mut Tape) -> f32 {
    match t.below(6) {
        0 => *t.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, 1e-30, -1e-30, 3e38, f32::MIN_POSITIVE, 1e-42]),
        1 => t.range(0, 1000) as f32 / 1000.0,
        2 => t.range(-2000, 2000) as f32 / 8.0,
        3 => f32::from_bits((t.any() as u32 & 0x807fffff) | ((t.range(90, 140) as u32) << 23)),
        4 => (t.range(-100, 100) as f32) * 1234.567,
        _ => {
            let b = f32::from_bits(t.any() as u32);
            if b.is_finite() { b } else { 0.1 }
        }
    }
}
fn unit(t: &mut Tape) -> f32 {
    match t.below(4) {
        0 => t.range(0, 100) as f32 / 100.0,
        1 => t.range(-300, 300) as f32 / 100.0,
        2 => (t.any() as u32) as f32 / u32::MAX as f32,
        _ => *t.pick(&[0.0, 1.0, 0.5, 0.3, 1e-6]),
    }
}
fn mesh(t: &mut Tape, nv: usize, nf: usize) -> MeshM {
    let mut m = MeshM::default();
    for _ in 0..nv {
        let v = [finite(t), finite(t), finite(t), unit(t), unit(t), unit(t), unit(t), unit(t)];
        m.verts.push(v.map(f32::to_bits));
    }
    for _ in 0..nf * 3 {
        m.idx.push(t.below(nv as u64) as u32);
    }
    m
}
fn vert(m: &MeshM, i: u32) -> [f32; 8] {
    m.verts[i as usize].map(f32::from_bits)
}

// ---- what the library writes ---------------------------------------------------

/// The stored mesh according to an independent parser of the OBJ file.
fn check_obj(data: &[u8], m: &MeshM, frame: Option<&Vec<[u32; 6]>>) -> Res {
    let o = objx::parse(data)?;
    ensure!(o.objects.len() == 1, "{} objects", o.objects.len());
    let faces = &o.objects[0].faces;
    ensure!(faces.len() * 3 == m.idx.len(), "{} faces for {} triangles", faces.len(), m.idx.len() / 3);
    for (k, (_, c)) in faces.iter().enumerate() {
        ensure!(c.len() == 3, "face {k} has {} corners", c.len());
        // right-handed: z mirrored, so the order of the corners is reversed
        let want: Vec<u32> = (0..3).map(|j| m.idx[k * 3 + 2 - j]).collect();
        let got: Vec<[f64; 8]> = c
            .iter()
            .map(|(p, t, n)| {
                let (t, n) = (t.ok_or("no texture coordinate")?, n.ok_or("no normal")?);
                let (p, t, n) = (o.v[*p], o.vt[t], o.vn[n]);
                Ok([p[0], p[1], -p[2], n[0], n[1], -n[2], t[0], 1.0 - t[1]])
            })
            .collect::<Result<_, String>>()?;
        // the face may start at any corner
        let ok = (0..3).any(|r| (0..3).all(|j| corner_is(&got[j], m, want[(j + r) % 3], frame)));
        ensure!(ok, "triangle {k}: file has {got:?}, stored corners {:?}", want.iter().map(|i| vert(m, *i)).collect::<Vec<_>>());
    }
    ensure!(o.v.len() == m.verts.len(), "{} vertices in the file, {} stored", o.v.len(), m.verts.len());
    Ok(())
}
fn corner_is(got: &[f64; 8], m: &MeshM, i: u32, frame: Option<&Vec<[u32; 6]>>) -> bool {
    let mut w = vert(m, i);
    if let Some(f) = frame {
        for k in 0..6 {
            w[k] = f32::from_bits(f[i as usize][k]);
        }
    }
    (0..8).all(|k| if k < 7 { got[k] as f32 == w[k] } else { (got[k] - w[k] as f64).abs() <= 1e-6 * (1.0 + w[k].abs() as f64) })
}
fn check_gltf(doc: &Doc, m: &MeshM, frame: Option<&Vec<[u32; 6]>>) -> Res {
    ensure!(doc.arr("meshes").len() == 1 && doc.arr("meshes")[0]["primitives"].as_array().is_some_and(|p| p.len() == 1), "not one mesh");
    let p = &doc.arr("meshes")[0]["primitives"][0];
    let mode = &p["mode"];
    ensure!(mode.is_null() || mode == 4, "mode {mode}");
    let at = |k: &str| -> Result<Vec<Vec<f64>>, String> { doc.rows(p["attributes"][k].as_u64().ok_or(format!("no {k}"))? as usize) };
    let (ps, ns, ts) = (at("POSITION")?, at("NORMAL")?, at("TEXCOORD_0")?);
    let ix = doc.rows(p["indices"].as_u64().ok_or("no indices")? as usize)?;
    ensure!(ps.len() == m.verts.len(), "{} vertices in the file, {} stored", ps.len(), m.verts.len());
    ensure!(ix.len() == m.idx.len(), "{} indices in the file, {} stored", ix.len(), m.idx.len());
    for (k, w) in m.idx.iter().enumerate() {
        let i = ix[k][0] as usize;
        let got = [ps[i][0], ps[i][1], ps[i][2], ns[i][0], ns[i][1], ns[i][2], ts[i][0], ts[i][1]];
        ensure!(corner_is(&got, m, *w, frame), "corner {k}: file has {got:?}, stored {:?}", vert(m, *w));
    }
    // the mesh is drawn exactly once, without any transformation
    let nodes: Vec<&Value> = doc.arr("nodes").iter().filter(|n| !n["mesh"].is_null()).collect();
    ensure!(nodes.len() == 1, "{} nodes with a mesh", nodes.len());
    for k in ["translation", "rotation", "scale", "matrix"] {
        ensure!(nodes[0][k].is_null(), "the node has a {k}");
    }
    Ok(())
}
/// The file (and, for glTF, its buffer) of a part.
pub fn doc_of(files: &Files, path: &str) -> Result<Doc, String> {
    let d = &files[path];
    if path.ends_with(".glb") {
        return Doc::from_glb(d);
    }
    let dir = path.rsplit_once('/').unwrap().0.to_string();
    Doc::from_gltf(d, &|u| files.get(&format!("{dir}/{u}")).cloned().ok_or(format!("{path} refers to {u}, which does not exist")))
}

fn export(t: &mut Tape, c: &mut Case) -> Res {
    let fmt = t.below(3);
    c.class(["obj", "glb", "gltf"][fmt as usize]);
    let n = t.usize(1, 3);
    let mut items = vec![];
    let mut ms = vec![];
    for i in 0..n {
        let nv = if t.chance(1, 12) { t.usize(20, 400) } else { t.usize(1, 14) };
        let nf = t.usize(1, 12);
        let mut m = mesh(t, nv, nf);
        if t.chance(1, 4) {
            for _ in 0..t.usize(1, 3) {
                let f = (0..nv).map(|_| [finite(t), finite(t), finite(t), unit(t), unit(t), unit(t)].map(f32::to_bits)).collect();
                m.frames.push(f);
            }
        }
        let name = match t.below(3) {
            0 => format!("{}{i}", t.pick(&["Wall 1 ", "100%", "a%41", "#1", "x.y", "é", "日本", "a b#c?d", "q'", "[x]", "{a}", "^`", "&amp;", "a+b"])),
            _ => format!("P{i}"),
        };
        c.class_if(!m.frames.is_empty(), "animated");
        c.class_if(!name.starts_with('P'), "difficult name");
        items.push(primitive(t, &name, Some(&m)));
        ms.push((name, m));
    }
    let tb = table_of(t, items);
    c.nontrivial = true;
    c.hash = streams_hash(&tb.streams());
    c.sample = Some(json!({"format": fmt, "meshes": ms.iter().map(|(n, m)| json!([n, m.verts.len(), m.idx.len() / 3, m.frames.len()])).collect::<Vec<_>>()}));
    let files = expand(&parse(&tb.streams())?, fmt, false)?;
    let index = json(&files, "gameitems.json")?;
    let ext = ["obj", "glb", "gltf"][fmt as usize];
    for ((name, m), e) in ms.iter().zip(index.as_array().ok_or("gameitems.json")?) {
        let stem = e["file_name"].as_str().ok_or("no file_name")?.strip_suffix(".json").ok_or("not json")?;
        for k in 0..=m.frames.len() {
            let frame = if k == 0 { None } else { Some(&m.frames[k - 1]) };
            let path = if k == 0 { format!("{ROOT}/gameitems/{stem}.{ext}") } else { format!("{ROOT}/gameitems/{stem}_anim_{}.{ext}", k - 1) };
            let Some(d) = files.get(&path) else { return Err(format!("no file {path}")) };
            let r = if fmt == 0 { check_obj(d, m, frame) } else { doc_of(&files, &path).and_then(|d| check_gltf(&d, m, frame)) };
            r.map_err(|e| format!("{name:?} {path}: {e}"))?;
            c.evals += 1;
        }
    }
    Ok(())
}

/// 16- and 32-bit indices
fn export_large(t: &mut Tape, c: &mut Case) -> Res {
    let fmt = t.below(3);
    let nv = *t.pick(&[65534usize, 65535, 65536, 65537, 70000]);
    c.class(["obj", "glb", "gltf"][fmt as usize]);
    c.class(if nv > 65535 { "32-bit indices" } else { "16-bit indices" });
    let mut m = mesh(t, 7, 0);
    let b = m.verts.clone();
    m.verts = (0..nv).map(|i| { let mut v = b[i % 7]; v[1] = (i as f32).to_bits(); v }).collect();
    let k = nv as u32;
    m.idx = vec![0, 1, k - 1, k - 1, k - 2, k / 2];
    for _ in 0..t.usize(0, 9) {
        m.idx.extend([t.below(nv as u64) as u32, t.below(nv as u64) as u32, k - 1]);
    }
    c.nontrivial = true;
    c.hash = crate::tape::hash_bytes(&m.ibytes()) ^ fmt;
    c.sample = Some(json!({"format": fmt, "vertices": nv, "triangles": m.idx.len() / 3}));
    let it = primitive(t, "big", Some(&m));
    let tb = table_of(t, vec![it]);
    let files = expand(&parse(&tb.streams())?, fmt, false)?;
    let path = files.keys().find(|k| k.contains("/gameitems/") && (k.ends_with(".obj") || k.ends_with(".glb") || k.ends_with(".gltf"))).ok_or("no mesh")?;
    if fmt == 0 { check_obj(&files[path], &m, None) } else { check_gltf(&doc_of(&files, path)?, &m, None) }
}

// ---- what the library reads ----------------------------------------------------

struct Poly {
    pos: Vec<[f32; 3]>,
    uv: Vec<[f32; 2]>,
    nrm: Vec<[f32; 3]>,
    faces: Vec<Vec<(usize, usize, usize)>>,
}
fn num(t: &mut Tape, x: f32) -> String {
    match t.below(8) {
        0 => format!("{x:e}"),
        1 => format!("{x:.60}"),
        2 if x.is_sign_positive() => format!("+{x}"),
        3 => format!("{:E}", x),
        4 => format!("{}", x as f64),
        _ => format!("{x}"),
    }
}
/// Writes the model as another tool would.
fn foreign_obj(t: &mut Tape, p: &Poly, c: &mut Case) -> String {
    let nl = if t.chance(1, 3) { "\r\n" } else { "\n" };
    let mut s = String::new();
    let noise = t.chance(1, 2);
    c.class_if(noise, "comments, groups and materials");
    c.class_if(nl == "\r\n", "CRLF");
    let deco = |t: &mut Tape, s: &mut String| {
        if noise && t.chance(1, 4) {
            let l = *t.pick(&["# Blender 4.1.0", "", "   ", "g group1", "s off", "s 1", "s 0", "usemtl Material.001", "# vertices", "#", "g a b", "usemtl None", "mtllib x.mtl"]);
            s.push_str(l);
            s.push_str(nl);
        }
    };
    if noise {
        let _ = write!(s, "# comment{nl}mtllib untitled.mtl{nl}");
    }
    let _ = write!(s, "o {}{nl}", t.pick(&["Cube", "my object", "a.001", "Plane_Plane.001"]));
    let colors = t.chance(1, 5);
    c.class_if(colors, "vertex colours");
    let order = t.below(3);
    let put_v = |t: &mut Tape, s: &mut String, q: &[f32; 3]| {
        let sep = if t.chance(1, 8) { "  " } else { " " };
        let _ = write!(s, "v {}{sep}{} {}", num(t, q[0]), num(t, q[1]), num(t, q[2]));
        if colors {
            let _ = write!(s, " 0.5 0.25 1");
        }
        s.push_str(nl);
    };
    let put_t = |t: &mut Tape, s: &mut String, q: &[f32; 2]| {
        let _ = write!(s, "vt {} {}", num(t, q[0]), num(t, q[1]));
        if t.chance(1, 8) {
            s.push_str(" 0");
        }
        s.push_str(nl);
    };
    let put_n = |t: &mut Tape, s: &mut String, q: &[f32; 3]| {
        let _ = write!(s, "vn {} {} {}{nl}", num(t, q[0]), num(t, q[1]), num(t, q[2]));
    };
    let put_f = |t: &mut Tape, s: &mut String, f: &Vec<(usize, usize, usize)>| {
        s.push('f');
        for (a, b, d) in f {
            let _ = write!(s, "{}{}/{}/{}", if t.chance(1, 10) { "  " } else { " " }, a + 1, b + 1, d + 1);
        }
        s.push_str(nl);
    };
    if order == 0 {
        // each face as soon as what it uses is there
        c.class("faces between vertices");
        let (mut a, mut b, mut d) = (0, 0, 0);
        for f in &p.faces {
            for (x, y, z) in f {
                while a <= *x {
                    put_v(t, &mut s, &p.pos[a]);
                    a += 1;
                }
                while b <= *y {
                    put_t(t, &mut s, &p.uv[b]);
                    b += 1;
                }
                while d <= *z {
                    put_n(t, &mut s, &p.nrm[d]);
                    d += 1;
                }
            }
            deco(t, &mut s);
            put_f(t, &mut s, f);
        }
        for q in &p.pos[a..] {
            put_v(t, &mut s, q);
        }
        for q in &p.uv[b..] {
            put_t(t, &mut s, q);
        }
        for q in &p.nrm[d..] {
            put_n(t, &mut s, q);
        }
    } else {
        for k in if order == 1 { [0, 1, 2] } else { [0, 2, 1] } {
            match k {
                0 => p.pos.iter().for_each(|q| {
                    deco(t, &mut s);
                    put_v(t, &mut s, q)
                }),
                1 => p.uv.iter().for_each(|q| put_t(t, &mut s, q)),
                _ => p.nrm.iter().for_each(|q| {
                    deco(t, &mut s);
                    put_n(t, &mut s, q)
                }),
            }
        }
        for f in &p.faces {
            deco(t, &mut s);
            put_f(t, &mut s, f);
        }
    }
    if t.chance(1, 6) {
        while s.ends_with(['\n', '\r']) {
            s.pop();
        }
        c.class("no final line break");
    }
    s
}
fn poly(t: &mut Tape) -> Poly {
    let style = t.below(4);
    let np = t.usize(3, 12);
    let (nt, nn) = match style {
        0 => (np, np),
        _ => (t.usize(1, 12), t.usize(1, 8)),
    };
    let mut p = Poly { pos: vec![], uv: vec![], nrm: vec![], faces: vec![] };
    for i in 0..np {
        p.pos.push([i as f32, finite(t) as f32, (i * i) as f32 / 8.0]);
    }
    for _ in 0..nt {
        p.uv.push([unit(t), unit(t)]);
    }
    for _ in 0..nn {
        p.nrm.push([unit(t), unit(t), unit(t)]);
    }
    for _ in 0..t.usize(1, 8) {
        let n = if style == 0 || t.chance(1, 2) { 3 } else { t.usize(3, 7.min(np)) };
        let perm = t.perm(np);
        let f = perm[..n].iter().map(|&a| if style == 0 { (a, a, a) } else { (a, t.usize(0, nt - 1), t.usize(0, nn - 1)) }).collect();
        p.faces.push(f);
    }
    if style == 1 {
        // matching indices as long as the tool has not shared anything
        let k = nt.min(nn).min(np);
        if k >= 3 {
            for f in p.faces.iter_mut() {
                let perm = t.perm(k);
                *f = perm[..3].iter().map(|&a| (a, a, a)).collect();
            }
        }
    }
    p
}
type Tri = [[u32; 8]; 3];
fn rot(mut a: Tri) -> Tri {
    let k = (0..3).min_by_key(|&k| [a[k], a[(k + 1) % 3], a[(k + 2) % 3]]).unwrap();
    a.rotate_left(k);
    a
}
fn bits(x: f32) -> u32 {
    // zero has no sign here
    if x == 0.0 { 0 } else { x.to_bits() }
}
fn triangles(m: &MeshM) -> Vec<Tri> {
    m.idx.chunks_exact(3).map(|c| rot([0, 1, 2].map(|k| m.verts[c[k] as usize].map(|b| bits(f32::from_bits(b)))))).collect()
}
/// The same triangle, starting at any corner; the flipped texture coordinate within rounding.
fn same_tri(a: &Tri, b: &Tri) -> bool {
    let f = f32::from_bits;
    let same = |x: &[u32; 8], y: &[u32; 8]| x[..7] == y[..7] && (f(x[7]) - f(y[7])).abs() <= 2e-7 * (1.0 + f(y[7]).abs());
    (0..3).any(|r| (0..3).all(|k| same(&a[k], &b[(k + r) % 3])))
}
/// A part whose mesh file is replaced.
fn import(t: &mut Tape, ext: &str, new: &[(String, Vec<u8>)]) -> Result<MeshM, String> {
    let old = mesh(t, 3, 1);
    let it = primitive(t, "P", Some(&old));
    let tb = table_of(t, vec![it]);
    let fmt = ["obj", "glb", "gltf"].iter().position(|x| *x == ext).unwrap() as u64;
    let mut files = expand(&parse(&tb.streams())?, fmt, false)?;
    files.retain(|k, _| !(k.contains("/gameitems/") && k.ends_with(".bin")));
    let path = files.keys().find(|k| k.ends_with(&format!(".{ext}"))).ok_or("no mesh file")?.clone();
    for (n, d) in new {
        let p = if n.is_empty() { path.clone() } else { format!("{ROOT}/gameitems/{n}") };
        files.insert(p, d.clone());
    }
    let s = save(&assemble(&files)?)?;
    // what was assembled can be read again
    let v = parse(&s)?;
    if let vpin::vpx::gameitem::GameItemEnum::Primitive(p) = &v.gameitems[0] {
        p.read_mesh().map_err(|e| format!("read_mesh of the assembled table: {e}"))?;
    }
    stored(&s["/GameStg/GameItem0"])?.ok_or("no mesh".into())
}

fn import_obj(t: &mut Tape, c: &mut Case) -> Res {
    let p = poly(t);
    import_poly(t, c, p)
}
/// More positions, texture coordinates or normals than fit 16 bits.
fn poly_large(t: &mut Tape) -> Poly {
    let mut p = poly(t);
    let np = *t.pick(&[65535usize, 65536, 65537, 66000, 70000, 131100]);
    let (bp, bt, bn) = (p.pos.clone(), p.uv.clone(), p.nrm.clone());
    p.pos = (0..np).map(|i| [i as f32, bp[i % bp.len()][1], (i / 256) as f32]).collect();
    let large = |t: &mut Tape, n: usize| if t.bool() { n } else { *t.pick(&[65536usize, 65540, 66000]) };
    let (nt, nn) = (large(t, bt.len()), large(t, bn.len()));
    p.uv = (0..nt).map(|i| if i < bt.len() { bt[i] } else { [(i % 251) as f32, (i / 251) as f32] }).collect();
    p.nrm = (0..nn).map(|i| if i < bn.len() { bn[i] } else { [(i % 253) as f32, (i / 253) as f32, 1.0] }).collect();
    let mut pool: Vec<(usize, usize, usize)> = vec![];
    for _ in 0..t.usize(1, 12) {
        // corners that are alike in their low 16 bits, and any others
        let base = t.usize(0, np - 1);
        let n = t.usize(3, 5);
        let mut seen = std::collections::HashSet::new();
        let mut f = vec![];
        for k in 0..n {
            let a = match t.below(3) {
                0 => (base + k * 65536) % np,
                1 => base % 65536,
                _ => t.usize(0, np - 1),
            };
            let mut corner = (a, t.usize(0, nt - 1), t.usize(0, nn - 1));
            if !pool.is_empty() && t.chance(2, 3) {
                // as one used before, but for the high bits
                let q = *t.pick(&pool);
                let mut twin = |x: usize, n: usize| match t.below(3) {
                    0 if x + 65536 < n => x + 65536,
                    1 if x >= 65536 => x - 65536,
                    _ => x,
                };
                corner = (twin(q.0, np), twin(q.1, nt), twin(q.2, nn));
            }
            pool.push(corner);
            let a = corner.0;
            if seen.insert(a) {
                f.push(corner);
            }
        }
        if f.len() >= 3 {
            p.faces.push(f);
        }
    }
    p
}
fn import_obj_large(t: &mut Tape, c: &mut Case) -> Res {
    let p = poly_large(t);
    c.class_if(p.pos.len() > 65536, "positions beyond 16 bits");
    c.class_if(p.uv.len() > 65536, "texture coordinates beyond 16 bits");
    c.class_if(p.nrm.len() > 65536, "normals beyond 16 bits");
    import_poly(t, c, p).map_err(|e| e.chars().take(1500).collect())
}
fn import_poly(t: &mut Tape, c: &mut Case, p: Poly) -> Res {
    let text = foreign_obj(t, &p, c);
    c.class_if(p.faces.iter().any(|f| f.len() > 3), "polygons");
    c.class_if(p.faces.iter().flatten().any(|(a, b, d)| a != b || a != d), "separate indices");
    c.class_if(p.pos.len() != p.uv.len() || p.pos.len() != p.nrm.len(), "arrays of different lengths");
    c.classes.sort();
    c.classes.dedup();
    c.nontrivial = true;
    c.hash = crate::tape::hash_bytes(text.as_bytes());
    c.evals = p.faces.len() as u64;
    c.sample = Some(json!(text.chars().take(400).collect::<String>()));
    let m = import(t, "obj", &[(String::new(), text.clone().into_bytes())]).map_err(|e| format!("{e}\n{text}"))?;
    let got = triangles(&m);
    let mut k = 0;
    for (fi, f) in p.faces.iter().enumerate() {
        let n = f.len();
        // left-handed: z mirrored, corners reversed, v flipped
        let cs: Vec<[u32; 8]> = f
            .iter()
            .rev()
            .map(|(a, b, d)| {
                let (a, b, d) = (p.pos[*a], p.uv[*b], p.nrm[*d]);
                [a[0], a[1], -a[2], d[0], d[1], -d[2], b[0], (1.0 - b[1] as f64) as f32].map(bits)
            })
            .collect();
        let g = got.get(k..k + n - 2).ok_or_else(|| format!("{} triangles, face {fi} is missing\n{text}", got.len()))?;
        // a fan around any of the corners
        let ok = (0..n).any(|r| (1..n - 1).all(|i| g.iter().any(|h| same_tri(h, &[cs[r], cs[(r + i) % n], cs[(r + i + 1) % n]]))));
        ensure!(ok, "face {fi} {f:?} is read as {:?}\n{text}", g.iter().map(|t| t.map(|v| v.map(f32::from_bits))).collect::<Vec<_>>());
        k += n - 2;
    }
    ensure!(k == got.len(), "{} triangles instead of {k}\n{text}", got.len());
    Ok(())
}

/// Constructs the library does not support must be refused, not misread.
fn refuse_obj(t: &mut Tape, c: &mut Case) -> Res {
    let p = poly(t);
    let mut text = foreign_obj(t, &p, &mut Case::default());
    let (np, nt, nn) = (p.pos.len(), p.uv.len(), p.nrm.len());
    let what = match t.below(7) {
        0 => {
            text.push_str("\nf 1//1 2//1 3//1\n");
            "no texture coordinates"
        }
        1 => {
            text.push_str("\nf 1/1 2/1 3/1\n");
            "no normals"
        }
        2 => {
            text.push_str("\nf 1 2 3\n");
            "positions only"
        }
        3 => {
            let _ = write!(text, "\nf -1/-1/-1 -2/-1/-1 -3/-1/-1\n");
            "negative indices"
        }
        4 => {
            let _ = write!(text, "\nf 1/1/1 {}/1/1 3/1/1\n", np + t.usize(1, 5));
            "vertex out of range"
        }
        5 => {
            if t.bool() {
                let _ = write!(text, "\nf 1/{}/1 2/1/1 3/1/1\n", nt + t.usize(1, 5));
            } else {
                let _ = write!(text, "\nf 1/1/{} 2/1/1 3/1/1\n", nn + t.usize(1, 5));
            }
            "attribute out of range"
        }
        _ => {
            text.push_str("\no second\nv 1 2 3\nv 1 2 4\nv 1 3 4\nf 1/1/1 2/1/1 3/1/1\n");
            "two objects"
        }
    };
    c.class(what);
    c.nontrivial = true;
    c.hash = crate::tape::hash_bytes(text.as_bytes());
    c.sample = Some(json!([what, text.chars().take(300).collect::<String>()]));
    match import(t, "obj", &[(String::new(), text.clone().into_bytes())]) {
        Err(e) if e.starts_with("assembling fails") => Ok(()),
        Err(e) => Err(format!("{what}: {e}\n{text}")),
        Ok(m) if what == "negative indices" => {
            // fine if understood
            let l = triangles(&m).len();
            let want: usize = p.faces.iter().map(|f| f.len() - 2).sum::<usize>() + 1;
            ensure!(l == want, "{what}: {l} triangles instead of {want}\n{text}");
            Ok(())
        }
        Ok(_) => Err(format!("{what}: accepted\n{text}")),
    }
}

/// A GLB or glTF file with the same mesh, laid out as another tool might.
fn foreign_gltf(t: &mut Tape, m: &MeshM, c: &mut Case) -> Vec<(String, Vec<u8>)> {
    let nv = m.verts.len();
    let mut extra = vec![];
    for (k, n, ct) in [("COLOR_0", 4usize, 5121), ("TANGENT", 4, 5126), ("TEXCOORD_1", 2, 5126), ("JOINTS_0", 4, 5121), ("_CUSTOM", 1, 5126)] {
        if t.chance(1, 4) {
            extra.push((k, n, ct));
        }
    }
    c.class_if(!extra.is_empty(), "extra attributes");
    // what must be stored: (name, bytes per element, elements)
    let f = |r: std::ops::Range<usize>| -> Vec<Vec<u8>> { m.verts.iter().map(|v| v[r.clone()].iter().flat_map(|x| x.to_le_bytes()).collect()).collect() };
    let mut attrs: Vec<(&str, &str, u64, Vec<Vec<u8>>)> = vec![("POSITION", "VEC3", 5126, f(0..3)), ("NORMAL", "VEC3", 5126, f(3..6)), ("TEXCOORD_0", "VEC2", 5126, f(6..8))];
    for (k, n, ct) in &extra {
        let sz = n * if *ct == 5126 { 4 } else { 1 };
        attrs.push((k, ["SCALAR", "VEC2", "VEC3", "VEC4"][n - 1], *ct, (0..nv).map(|i| vec![(i % 3) as u8; sz]).collect()));
    }
    let order = t.perm(attrs.len());
    let attrs: Vec<_> = order.into_iter().map(|i| attrs[i].clone()).collect();
    let width = if nv > 65535 { 4 } else { *t.pick(&[1usize, 2, 4]) };
    let width = if width == 1 && nv > 255 { 2 } else { width };
    c.class(["", "8-bit indices", "16-bit indices", "", "32-bit indices"][width]);
    let idx: Vec<u8> = m.idx.iter().flat_map(|x| x.to_le_bytes()[..width].to_vec()).collect();
    let mut bin: Vec<u8> = vec![];
    let mut views = vec![];
    let mut acc = vec![];
    let mut amap = serde_json::Map::new();
    let interleave = t.chance(1, 3);
    c.class_if(interleave, "interleaved");
    let first_idx = t.bool();
    let shift = t.usize(0, attrs.len());
    let mut ind = 0;
    let omit = t.bool();
    c.class_if(omit, "default offsets left out");
    let view = |o: usize, l: usize, stride: Option<usize>, target: Option<u64>| {
        let mut v = json!({"buffer": 0, "byteLength": l});
        if o > 0 || !omit {
            v["byteOffset"] = json!(o);
        }
        if let Some(s) = stride {
            v["byteStride"] = json!(s);
        }
        if let Some(t) = target {
            v["target"] = json!(t);
        }
        v
    };
    let push_idx = |bin: &mut Vec<u8>, views: &mut Vec<Value>, acc: &mut Vec<Value>| {
        while bin.len() % 4 != 0 {
            bin.push(0xee);
        }
        views.push(view(bin.len(), idx.len(), None, Some(34963)));
        bin.extend(&idx);
        acc.push(json!({"bufferView": views.len() - 1, "componentType": ([0u32, 5121, 5123, 0, 5125][width]), "count": m.idx.len(), "type": "SCALAR"}));
        acc.len() - 1
    };
    if first_idx {
        ind = push_idx(&mut bin, &mut views, &mut acc);
    }
    if t.chance(1, 3) {
        // something before the data
        bin.extend(vec![0xcc; 4 * t.usize(1, 5)]);
        views.push(view(0, 4, None, None));
    }
    if interleave {
        while bin.len() % 4 != 0 {
            bin.push(0);
        }
        let start = bin.len();
        let stride: usize = attrs.iter().map(|a| a.3[0].len()).sum();
        for i in 0..nv {
            for a in &attrs {
                bin.extend(&a.3[i]);
            }
        }
        views.push(view(start, bin.len() - start, Some(stride), Some(34962)));
        let mut o = 0;
        for a in &attrs {
            let mut x = json!({"bufferView": views.len() - 1, "byteOffset": o, "componentType": a.2, "count": nv, "type": a.1});
            if o == 0 && omit {
                x.as_object_mut().unwrap().remove("byteOffset");
            }
            o += a.3[0].len();
            amap.insert(a.0.into(), json!(acc.len()));
            acc.push(x);
        }
    } else {
        let one_view = t.chance(1, 3);
        c.class_if(one_view, "one view for all attributes");
        let start = bin.len() + (4 - bin.len() % 4) % 4;
        let mut waiting = vec![];
        for (k, a) in attrs.iter().enumerate() {
            if !first_idx && k == shift && !one_view {
                ind = push_idx(&mut bin, &mut views, &mut acc);
            }
            while bin.len() % 4 != 0 {
                bin.push(0xdd);
            }
            let o = bin.len();
            for e in &a.3 {
                bin.extend(e);
            }
            let mut x = json!({"componentType": a.2, "count": nv, "type": a.1});
            if one_view {
                x["byteOffset"] = json!(o - start);
                waiting.push(acc.len());
            } else {
                views.push(view(o, bin.len() - o, None, Some(34962)));
                x["bufferView"] = json!(views.len() - 1);
                if !omit {
                    x["byteOffset"] = json!(0);
                }
            }
            amap.insert(a.0.into(), json!(acc.len()));
            acc.push(x);
        }
        if one_view {
            views.push(view(start, bin.len() - start, None, Some(34962)));
            for w in waiting {
                acc[w]["bufferView"] = json!(views.len() - 1);
            }
        }
        if !first_idx && (one_view || shift == attrs.len()) {
            ind = push_idx(&mut bin, &mut views, &mut acc);
        }
    }
    if !first_idx && interleave {
        ind = push_idx(&mut bin, &mut views, &mut acc);
    }
    for x in acc.iter_mut() {
        if amap.get("POSITION").is_some() && t.chance(1, 6) {
            x["name"] = json!("accessor");
        }
    }
    let pi = amap["POSITION"].as_u64().unwrap() as usize;
    let mm = |g: fn(f32, f32) -> f32| -> Vec<f32> { (0..3).map(|k| m.verts.iter().map(|v| f32::from_bits(v[k])).reduce(g).unwrap()).collect() };
    acc[pi]["min"] = json!(mm(f32::min));
    acc[pi]["max"] = json!(mm(f32::max));
    let mut prim = json!({"attributes": amap, "indices": ind});
    if t.bool() {
        prim["mode"] = json!(4);
    }
    if t.bool() {
        prim["material"] = json!(0);
    }
    let mut doc = json!({
        "asset": {"generator": "Khronos glTF Blender I/O v4.1.63", "version": "2.0"},
        "scene": 0, "scenes": [{"name": "Scene", "nodes": [0]}], "nodes": [{"mesh": 0, "name": "Cube"}],
        "materials": [{"name": "m", "pbrMetallicRoughness": {"roughnessFactor": 0.5}}],
        "meshes": [{"primitives": [prim]}], "accessors": acc, "bufferViews": views, "buffers": [{"byteLength": bin.len()}],
    });
    if t.bool() {
        doc["meshes"][0]["name"] = json!("Cube.001");
    }
    if t.chance(1, 4) {
        doc["meshes"][0]["primitives"][0]["extras"] = json!({"note": 1});
    }
    if t.bool() {
        c.class("glb");
        let mut j = serde_json::to_vec(&doc).unwrap();
        while j.len() % 4 != 0 {
            j.push(b' ');
        }
        while bin.len() % 4 != 0 {
            bin.push(0);
        }
        let mut o = b"glTF\x02\0\0\0\0\0\0\0".to_vec();
        o.extend((j.len() as u32).to_le_bytes());
        o.extend(b"JSON");
        o.extend(j);
        o.extend((bin.len() as u32).to_le_bytes());
        o.extend(b"BIN\0");
        o.extend(&bin);
        if t.chance(1, 4) {
            // chunks of unknown types are to be skipped
            o.extend(4u32.to_le_bytes());
            o.extend(b"XTRAabcd");
        }
        let l = (o.len() as u32).to_le_bytes();
        o[8..12].copy_from_slice(&l);
        return vec![(String::new(), o)];
    }
    c.class("gltf");
    let (uri, name) = *t.pick(&[("mesh.bin", "mesh.bin"), ("my%20mesh.bin", "my mesh.bin"), ("a%23b.bin", "a#b.bin"), ("100%25.bin", "100%.bin")]);
    c.class_if(uri != name, "escaped uri");
    doc["buffers"][0]["uri"] = json!(uri);
    let j = if t.bool() { serde_json::to_vec_pretty(&doc).unwrap() } else { serde_json::to_vec(&doc).unwrap() };
    vec![(String::new(), j), (name.into(), bin)]
}

fn import_gltf(t: &mut Tape, c: &mut Case) -> Res {
    let nv = if t.chance(1, 15) { t.usize(250, 300) } else { t.usize(1, 12) };
    let nf = t.usize(1, 10);
    let m = mesh(t, nv, nf);
    import_doc(t, c, m)
}
fn import_gltf_large(t: &mut Tape, c: &mut Case) -> Res {
    let nv = *t.pick(&[65534usize, 65535, 65536, 65537, 70000, 131100]);
    let mut m = mesh(t, 7, 0);
    let b = m.verts.clone();
    m.verts = (0..nv).map(|i| { let mut v = b[i % 7]; v[1] = (i as f32).to_bits(); v }).collect();
    for _ in 0..t.usize(1, 12) {
        let base = t.below(nv as u64) as u32;
        m.idx.extend([base, (base + 65536) % nv as u32, t.below(nv as u64) as u32]);
    }
    c.class_if(nv > 65535, "vertices beyond 16 bits");
    import_doc(t, c, m).map_err(|e| e.chars().take(1500).collect())
}
fn import_doc(t: &mut Tape, c: &mut Case, m: MeshM) -> Res {
    let (nv, nf) = (m.verts.len(), m.idx.len() / 3);
    let fs = foreign_gltf(t, &m, c);
    c.classes.sort();
    c.classes.dedup();
    c.nontrivial = true;
    c.hash = crate::tape::hash_bytes(&fs[0].1);
    c.evals = nf as u64;
    let ext = if fs[0].1.starts_with(b"glTF") { "glb" } else { "gltf" };
    let shown = |fs: &[(String, Vec<u8>)]| String::from_utf8_lossy(&fs[0].1).chars().take(2500).collect::<String>();
    c.sample = Some(json!({"format": ext, "vertices": nv, "triangles": nf}));
    let got = import(t, ext, &fs).map_err(|e| format!("{e}\n{}", shown(&fs)))?;
    if got.verts.len() == m.verts.len() {
        same_mesh("read", &m, &got).map_err(|e| format!("{e}\n{}", shown(&fs)))?;
    }
    let (a, b) = (triangles(&m), triangles(&got));
    ensure!(a.len() == b.len(), "{} triangles are read as {}\n{}", a.len(), b.len(), shown(&fs));
    for (k, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!(x == y, "triangle {k} {:?} is read as {:?}\n{}", x.map(|v| v.map(f32::from_bits)), y.map(|v| v.map(f32::from_bits)), shown(&fs));
    }
    Ok(())
}

/// Documents that other tools might write and the library does not support, and damaged ones, must be refused, not misread.
fn refuse_gltf(t: &mut Tape, c: &mut Case) -> Res {
    let nv = t.usize(2, 12);
    let nf = t.usize(1, 10);
    let m = mesh(t, nv, nf);
    let mut fs = foreign_gltf(t, &m, &mut Case::default());
    let glb = fs[0].1.starts_with(b"glTF");
    let (mut doc, mut bin): (Value, Vec<u8>) = if glb {
        let d = &fs[0].1;
        let l = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as usize;
        let n = l(12);
        (serde_json::from_slice(&d[20..20 + n]).unwrap(), d[28 + n..28 + n + l(20 + n)].to_vec())
    } else {
        (serde_json::from_slice(&fs[0].1).unwrap(), fs[1].1.clone())
    };
    let prim = doc["meshes"][0]["primitives"][0].clone();
    let attr = *t.pick(&["POSITION", "NORMAL", "TEXCOORD_0"]);
    let any = if t.chance(1, 3) { "indices" } else { attr };
    let acc = if any == "indices" { prim["indices"].as_u64() } else { prim["attributes"][any].as_u64() }.unwrap() as usize;
    let view = doc["accessors"][acc]["bufferView"].as_u64().unwrap() as usize;
    let at = |a: &str| prim["attributes"][a].as_u64().unwrap() as usize;
    let mut cut = None;
    let mut drop_bin = false;
    let choice = t.below(20);
    let what: String = match choice {
        0 => {
            // all attributes count the same
            let a = at(attr);
            doc["accessors"][a]["count"] = json!(t.usize(0, nv - 1));
            format!("fewer {attr}")
        }
        1 => {
            let a = at(attr);
            doc["accessors"][a]["count"] = json!(nv + t.usize(1, 3));
            bin.extend([0u8; 2000]);
            format!("more {attr}")
        }
        2 => {
            let p = doc["meshes"][0]["primitives"][0].as_object_mut().unwrap();
            if any == "indices" {
                p.remove("indices");
            } else {
                p["attributes"].as_object_mut().unwrap().remove(any);
            }
            format!("no {any}")
        }
        3 => {
            let old = doc["accessors"][acc]["type"].as_str().unwrap().to_string();
            let new = *t.pick(&["SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4", "vec3", ""]);
            if new == old {
                return Ok(());
            }
            doc["accessors"][acc]["type"] = json!(new);
            format!("{any} of type {new:?}")
        }
        4 => {
            let bad: &[u32] = if any == "indices" { &[5120, 5122, 5124, 5126, 5130, 0] } else { &[5120, 5121, 5122, 5123, 5124, 5125, 5130, 0] };
            let k = *t.pick(bad);
            doc["accessors"][acc]["componentType"] = json!(k);
            format!("{any} of component type {k}")
        }
        5 => {
            let n = doc["accessors"].as_array().unwrap().len();
            let x = t.pick(&[json!(n), json!(n + 7), json!(-1), json!(u64::MAX), json!("0"), json!(null), json!(0.5)]).clone();
            let p = &mut doc["meshes"][0]["primitives"][0];
            *(if any == "indices" { &mut p["indices"] } else { &mut p["attributes"][any] }) = x.clone();
            format!("{any} in accessor {x}")
        }
        6 => {
            let n = doc["bufferViews"].as_array().unwrap().len();
            let x = t.pick(&[json!(n), json!(n + 7), json!(-1), json!(u64::MAX), json!("0"), json!(null)]).clone();
            doc["accessors"][acc]["bufferView"] = x.clone();
            format!("{any} in view {x}")
        }
        7 => {
            let x = t.pick(&[json!(bin.len()), json!(bin.len() + 100), json!(u64::MAX), json!(u64::MAX - 8), json!(i64::MAX), json!(-4), json!("0"), json!(4.5)]).clone();
            let o = if t.bool() { &mut doc["accessors"][acc] } else { &mut doc["bufferViews"][view] };
            o["byteOffset"] = x.clone();
            format!("{any} at {x}")
        }
        8 => {
            let n = *t.pick(&[bin.len() as u64 + 3, 1 << 20, 1 << 40, u64::MAX, u64::MAX / 12 + 1, 6_148_914_691_236_517_206]);
            for a in if any == "indices" { vec![acc] } else { vec![at("POSITION"), at("NORMAL"), at("TEXCOORD_0")] } {
                doc["accessors"][a]["count"] = json!(n / 3 * 3);
            }
            format!("{} elements", n / 3 * 3)
        }
        9 => {
            doc["accessors"][acc]["sparse"] = json!({"count": 1, "indices": {"bufferView": 0, "componentType": 5121}, "values": {"bufferView": 0}});
            format!("sparse {any}")
        }
        10 => {
            let k = t.pick(&[json!(0), json!(1), json!(2), json!(3), json!(5), json!(6), json!(7), json!("4"), json!(-1), json!(4.5)]).clone();
            doc["meshes"][0]["primitives"][0]["mode"] = k.clone();
            format!("mode {k}")
        }
        11 => {
            let two = doc["meshes"][0].clone();
            match t.below(3) {
                0 => doc["meshes"].as_array_mut().unwrap().push(two),
                1 => doc["meshes"] = json!([]),
                _ => {
                    doc.as_object_mut().unwrap().remove("meshes");
                }
            }
            "not one mesh".into()
        }
        12 => {
            match t.below(3) {
                0 => doc["meshes"][0]["primitives"].as_array_mut().unwrap().push(prim.clone()),
                1 => doc["meshes"][0]["primitives"] = json!([]),
                _ => {
                    doc["meshes"][0].as_object_mut().unwrap().remove("primitives");
                }
            }
            "not one primitive".into()
        }
        13 => {
            doc["bufferViews"][view]["buffer"] = json!(1);
            doc["buffers"].as_array_mut().unwrap().push(json!({"byteLength": bin.len(), "uri": "other.bin"}));
            "another buffer".into()
        }
        14 => {
            let a = prim["indices"].as_u64().unwrap() as usize;
            doc["accessors"][a]["count"] = json!(m.idx.len() - t.usize(1, 2));
            "indices that are not triangles".into()
        }
        15 => {
            let size = if any == "indices" { [1, 2, 4][(doc["accessors"][acc]["componentType"].as_u64().unwrap() as usize - 5121) / 2] } else if any == "TEXCOORD_0" { 8 } else { 12 };
            let k = t.usize(0, size.max(1) - 1);
            doc["bufferViews"][view]["byteStride"] = json!(k);
            format!("{any} {k} bytes apart")
        }
        16 => {
            // an index of no vertex, beyond those that tables may have
            let a = prim["indices"].as_u64().unwrap() as usize;
            if doc["accessors"][a]["componentType"] != json!(5125) {
                return Ok(());
            }
            let v = doc["accessors"][a]["bufferView"].as_u64().unwrap() as usize;
            let o = doc["bufferViews"][v]["byteOffset"].as_u64().unwrap_or(0) as usize + 4 * t.usize(0, m.idx.len() - 1);
            let k = *t.pick(&[65536u32, 65537, 1 << 20, i32::MAX as u32, 1 << 31, u32::MAX]);
            bin[o..o + 4].copy_from_slice(&k.to_le_bytes());
            format!("index {k}")
        }
        17 => {
            // what is missing there is used
            let end = |a: usize| {
                let v = doc["accessors"][a]["bufferView"].as_u64().unwrap() as usize;
                let o = doc["bufferViews"][v]["byteOffset"].as_u64().unwrap_or(0) + doc["accessors"][a]["byteOffset"].as_u64().unwrap_or(0);
                let size = match doc["accessors"][a]["type"].as_str().unwrap() {
                    "SCALAR" => [1, 2, 4][(doc["accessors"][a]["componentType"].as_u64().unwrap() as usize - 5121) / 2],
                    "VEC2" => 8,
                    _ => 12,
                };
                let n = doc["accessors"][a]["count"].as_u64().unwrap();
                o + doc["bufferViews"][v]["byteStride"].as_u64().unwrap_or(size) * (n - 1) + size
            };
            let last = [at("POSITION"), at("NORMAL"), at("TEXCOORD_0"), prim["indices"].as_u64().unwrap() as usize].map(end).into_iter().max().unwrap() as usize;
            let k = t.usize(0, last - 1);
            bin.truncate(k);
            format!("{k} of {last} bytes of data")
        }
        18 => {
            cut = Some(t.below(1 << 32));
            "cut file".into()
        }
        _ if glb => {
            cut = Some(u64::MAX);
            "damaged header".into()
        }
        _ => {
            match t.below(3) {
                0 => doc["buffers"][0]["uri"] = json!("data:application/octet-stream;base64,AAAA"),
                1 => {
                    doc["buffers"][0].as_object_mut().unwrap().remove("uri");
                }
                _ => drop_bin = true,
            }
            "no data".into()
        }
    };
    if glb {
        let mut j = serde_json::to_vec(&doc).unwrap();
        while j.len() % 4 != 0 {
            j.push(b' ');
        }
        let mut o = b"glTF\x02\0\0\0\0\0\0\0".to_vec();
        o.extend((j.len() as u32).to_le_bytes());
        o.extend(b"JSON");
        o.extend(&j);
        o.extend((bin.len() as u32).to_le_bytes());
        o.extend(b"BIN\0");
        o.extend(&bin);
        let l = (o.len() as u32).to_le_bytes();
        o[8..12].copy_from_slice(&l);
        let b = 20 + j.len();
        match cut {
            Some(u64::MAX) => match t.below(7) {
                0 => o[t.usize(0, 3)] ^= 1 << t.below(8),
                1 => o[4] = *t.pick(&[0u8, 1, 3]),
                2 => o[t.usize(16, 19)] ^= 1 << t.below(8),
                3 => o[b + t.usize(4, 7)] ^= 1 << t.below(8),
                4 => o[b + t.usize(1, 3)] |= 0x80,
                5 => o[12 + t.usize(1, 3)] |= 0x80,
                _ => o[20 + t.usize(0, j.len().min(8) - 1)] = 0,
            },
            Some(k) => o.truncate((k % o.len() as u64) as usize),
            None => {}
        }
        fs[0].1 = o;
    } else {
        let mut j = serde_json::to_vec(&doc).unwrap();
        if let Some(k) = cut {
            j.truncate((k % j.len() as u64) as usize);
        }
        fs[0].1 = j;
        fs[1].1 = bin;
        if drop_bin {
            fs.pop();
        }
    }
    let ext = if glb { "glb" } else { "gltf" };
    c.class(["counts differ", "counts differ", "missing attribute", "wrong type", "wrong component type", "no such accessor", "no such view", "outside of the data", "outside of the data", "sparse", "no triangles", "not one mesh", "not one primitive", "another buffer", "indices that are not triangles", "overlapping elements", "no such vertex", "data cut", "file cut", "damaged container"][choice as usize]);
    c.class(ext);
    c.nontrivial = true;
    c.hash = crate::tape::hash_bytes(&fs[0].1);
    c.sample = Some(json!({"format": ext, "what": what}));
    let shown = || String::from_utf8_lossy(&fs[0].1).chars().take(2500).collect::<String>();
    match import(t, ext, &fs) {
        Err(e) if e.starts_with("assembling fails") => Ok(()),
        Err(e) => Err(format!("{what}: {e}\n{}", shown())),
        Ok(_) => Err(format!("{what}: accepted\n{}", shown())),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("export", ctx.n(16000, 400000), "every mesh has a triangle; distinct by stream contents", export);
    ctx.sub("export-index-width", ctx.n(40, 1000), "a mesh of 65534 to 70000 vertices", export_large);
    ctx.sub("import-obj", ctx.n(16000, 400000), "an OBJ file with at least one face, written as another tool would; distinct by text", import_obj);
    ctx.sub("refuse-obj", ctx.n(4000, 60000), "an OBJ file with one unsupported construct", refuse_obj);
    ctx.sub("import-gltf", ctx.n(16000, 400000), "a GLB or glTF file laid out by another tool; distinct by document", import_gltf);
    ctx.sub("refuse-gltf", ctx.n(8000, 200000), "a GLB or glTF file with one unsupported construct or defect; distinct by document", refuse_gltf);
    ctx.sub("import-obj-index-width", ctx.n(150, 3000), "an OBJ file of more than 65534 positions", import_obj_large);
    ctx.sub("import-gltf-index-width", ctx.n(150, 3000), "a GLB or glTF file of more than 65533 vertices", import_gltf_large);
}
