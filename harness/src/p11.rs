//! P11: primitive meshes survive each mesh file format bit for bit.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use vpin::vpx::gameitem::GameItemEnum;

/// A single precision value, any bit pattern; the class depends on the case.
fn value(t: &mut Tape, nan: bool) -> u32 {
    if nan && t.chance(1, 4) {
        return match t.below(4) {
            0 => 0x7fc00000,
            1 => 0xffd15d71,
            2 => 0x7f800001 | (t.any() as u32 & 0x803fffff),
            _ => 0x7fc00000 | (t.any() as u32 & 0x803fffff),
        };
    }
    match t.below(8) {
        0 => *t.pick(&[0u32, 0x80000000, 0x3f800000, 0xbf800000, 1, 0x80000001, 0x7f7fffff, 0xff7fffff, 0x00800000, 0x7f800000, 0xff800000]),
        1 => (t.range(0, 1000) as f32 / 1000.0).to_bits(),
        // texture coordinates whose flip is delicate
        2 => ((t.any() as u32 & 0x807fffff) | ((t.range(60, 130) as u32) << 23)),
        3 => (1.0 - t.range(-8, 8) as f32 * f32::EPSILON).to_bits(),
        4 => (t.range(-2000, 2000) as f32 / 8.0).to_bits(),
        _ => {
            let b = t.any() as u32;
            if f32::from_bits(b).is_nan() { b & 0xbfffffff } else { b }
        }
    }
}
fn mesh(t: &mut Tape, nv: usize, nf: usize, nan: bool) -> MeshM {
    let mut m = MeshM::default();
    for i in 0..nv {
        if i > 0 && t.chance(1, 8) {
            // a repeated vertex must stay a vertex of its own
            let k = t.usize(0, i - 1);
            m.verts.push(m.verts[k]);
            continue;
        }
        let mut v = [0u32; 8];
        let nan_here = nan && t.chance(1, 3);
        for x in v.iter_mut() {
            *x = value(t, nan_here);
        }
        m.verts.push(v);
    }
    faces(t, &mut m, nf);
    if t.chance(1, 3) {
        for _ in 0..t.usize(1, 12) {
            let f = (0..nv)
                .map(|_| {
                    let mut v = [0u32; 6];
                    let nan_here = nan && t.chance(1, 3);
                    for x in v.iter_mut() {
                        *x = value(t, nan_here);
                    }
                    v
                })
                .collect();
            m.frames.push(f);
        }
    }
    m
}
fn faces(t: &mut Tape, m: &mut MeshM, nf: usize) {
    let nv = m.verts.len() as u64;
    for _ in 0..nf {
        match t.below(5) {
            0 => {
                let k = t.below(nv) as u32;
                m.idx.extend([k, k, k]);
            }
            1 if nv > 1 => {
                let k = nv as u32 - 1;
                m.idx.extend([k, 0, k - 1]);
            }
            _ => {
                for _ in 0..3 {
                    m.idx.push(t.below(nv) as u32);
                }
            }
        }
    }
}

pub fn primitive(t: &mut Tape, name: &str, m: Option<&MeshM>) -> Item {
    let mut it = gen_item_of(t, &Prof::default(), 0, 19);
    it.recs.retain(|x| !x.tag.starts_with("M3"));
    it.set("NAME", Val::WStr(name.into()));
    it.set("U3DM", Val::Bool(m.is_some()));
    if let Some(m) = m {
        it.recs.extend(m.recs());
    }
    it
}
/// The mesh records of a stored primitive.
pub fn stored(stream: &[u8]) -> Result<Option<MeshM>, String> {
    let w = walk(&stream[4..])?;
    let one = |tag: &str| -> Result<Option<Vec<u8>>, String> {
        let v: Vec<_> = w.iter().filter(|x| x.0 == tag).collect();
        ensure!(v.len() < 2, "{} records {tag}", v.len());
        Ok(v.first().map(|x| x.1.clone()))
    };
    let num = |tag: &str| -> Result<Option<u32>, String> { Ok(one(tag)?.map(|d| u32::from_le_bytes(d[..4].try_into().unwrap()))) };
    let Some(cx) = one("M3CX")? else {
        for tag in ["M3VN", "M3CY", "M3FN", "M3CJ", "M3CI", "M3AX", "M3AY"] {
            ensure!(!w.iter().any(|x| x.0 == tag), "{tag} without a mesh");
        }
        return Ok(None);
    };
    let ci = one("M3CI")?.ok_or("no M3CI")?;
    ensure!(num("M3CY")? == Some(cx.len() as u32), "M3CY is {:?}, the data has {} bytes", num("M3CY")?, cx.len());
    ensure!(num("M3CJ")? == Some(ci.len() as u32), "M3CJ is {:?}, the data has {} bytes", num("M3CJ")?, ci.len());
    let (v, i) = (unzlib(&cx)?, unzlib(&ci)?);
    let words = |b: &[u8]| -> Vec<u32> { b.chunks_exact(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect() };
    ensure!(v.len() % 32 == 0, "{} bytes of vertices", v.len());
    let mut m = MeshM::default();
    m.verts = words(&v).chunks_exact(8).map(|x| x.try_into().unwrap()).collect();
    m.idx = if m.verts.len() > 65535 { words(&i) } else { i.chunks_exact(2).map(|x| u16::from_le_bytes([x[0], x[1]]) as u32).collect() };
    ensure!(num("M3VN")? == Some(m.verts.len() as u32), "M3VN is {:?}, there are {} vertices", num("M3VN")?, m.verts.len());
    ensure!(num("M3FN")? == Some(m.idx.len() as u32), "M3FN is {:?}, there are {} indices", num("M3FN")?, m.idx.len());
    let ax: Vec<_> = w.iter().filter(|x| x.0 == "M3AX").collect();
    let ay: Vec<_> = w.iter().filter(|x| x.0 == "M3AY").collect();
    ensure!(ax.len() == ay.len(), "{} frames but {} lengths", ax.len(), ay.len());
    for (x, y) in ax.iter().zip(ay) {
        ensure!(y.1[..4] == (x.1.len() as u32).to_le_bytes(), "wrong M3AY");
        m.frames.push(words(&unzlib(&x.1)?).chunks_exact(6).map(|x| x.try_into().unwrap()).collect());
    }
    Ok(Some(m))
}
const NAMES: [&str; 8] = ["x", "y", "z", "nx", "ny", "nz", "tu", "tv"];
pub fn same_mesh(what: &str, a: &MeshM, b: &MeshM) -> Res {
    ensure!(a.verts.len() == b.verts.len(), "{what}: {} vertices became {}", a.verts.len(), b.verts.len());
    for (i, (x, y)) in a.verts.iter().zip(&b.verts).enumerate() {
        for k in 0..8 {
            ensure!(x[k] == y[k], "{what}: vertex {i} {}: {:?} ({:08x}) became {:?} ({:08x})", NAMES[k], f32::from_bits(x[k]), x[k], f32::from_bits(y[k]), y[k]);
        }
    }
    ensure!(a.idx.len() == b.idx.len(), "{what}: {} indices became {}", a.idx.len(), b.idx.len());
    if let Some(i) = (0..a.idx.len()).find(|&i| a.idx[i] != b.idx[i]) {
        return Err(format!("{what}: index {i}: {} became {}", a.idx[i], b.idx[i]));
    }
    ensure!(a.frames.len() == b.frames.len(), "{what}: {} frames became {}", a.frames.len(), b.frames.len());
    for (f, (x, y)) in a.frames.iter().zip(&b.frames).enumerate() {
        ensure!(x.len() == y.len(), "{what}: frame {f}: {} vertices became {}", x.len(), y.len());
        for (i, (p, q)) in x.iter().zip(y).enumerate() {
            for k in 0..6 {
                ensure!(p[k] == q[k], "{what}: frame {f} vertex {i} {}: {:?} ({:08x}) became {:?} ({:08x})", NAMES[k], f32::from_bits(p[k]), p[k], f32::from_bits(q[k]), q[k]);
            }
        }
    }
    Ok(())
}
/// The library's own decoding of a stored mesh.
fn decoded(what: &str, p: &vpin::vpx::gameitem::primitive::Primitive, m: &MeshM) -> Res {
    let d = p.read_mesh().map_err(|e| format!("{what}: read_mesh: {e}"))?.ok_or(format!("{what}: read_mesh gives nothing"))?;
    let mut g = MeshM::default();
    for v in &d.vertices {
        let x = &v.vertex;
        let dec = [x.x, x.y, x.z, x.nx, x.ny, x.nz, x.tu, x.tv].map(f32::to_bits);
        let raw: Vec<u32> = v.vpx_encoded_vertex.chunks_exact(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
        ensure!(raw == dec, "{what}: read_mesh: bytes {raw:x?} next to values {dec:x?}");
        g.verts.push(dec);
    }
    for f in &d.indices {
        for i in [f.i0, f.i1, f.i2] {
            g.idx.push(u32::try_from(i).map_err(|_| format!("{what}: index {i}"))?);
        }
    }
    same_mesh(&format!("{what}: read_mesh"), &MeshM { frames: vec![], ..m.clone() }, &g)
}
pub fn table_of(t: &mut Tape, items: Vec<Item>) -> Table {
    let mut tb = gen_table(t, &Prof { max_items: 0, max_res: 0, ..Prof::default() });
    tb.items = items;
    tb.fix_counts();
    derive_legacy_tables(&mut tb);
    tb
}

fn check(tb: &Table, meshes: &[Option<MeshM>], fmt: u64, derived: bool) -> Res {
    let v = parse(&tb.streams())?;
    let prims = |v: &vpin::vpx::VPX, what: &str| -> Res {
        ensure!(v.gameitems.len() == meshes.len(), "{what}: {} parts", v.gameitems.len());
        for (g, m) in v.gameitems.iter().zip(meshes) {
            let GameItemEnum::Primitive(p) = g else { return Err(format!("{what}: not a primitive")) };
            match m {
                Some(m) => decoded(what, p, m)?,
                None => ensure!(p.read_mesh().map_err(|e| e.to_string())?.is_none(), "{what}: a mesh appears"),
            }
        }
        Ok(())
    };
    prims(&v, "as stored")?;
    let files = expand(&v, fmt, derived)?;
    let w = assemble(&files)?;
    prims(&w, "assembled")?;
    let s = save(&w)?;
    for (i, m) in meshes.iter().enumerate() {
        let got = stored(&s[&format!("/GameStg/GameItem{i}")])?;
        match (m, got) {
            (Some(m), Some(g)) => same_mesh(&format!("item {i}"), m, &g)?,
            (None, None) => {}
            (a, b) => return Err(format!("item {i}: mesh {} became mesh {}", a.is_some(), b.is_some())),
        }
    }
    prims(&parse(&s)?, "saved again")?;
    // another format from what was read
    let f2 = expand(&w, (fmt + 1) % 3, false)?;
    let s2 = save(&assemble(&f2)?)?;
    for (i, m) in meshes.iter().enumerate() {
        if let Some(m) = m {
            same_mesh(&format!("item {i} through a second format"), m, &stored(&s2[&format!("/GameStg/GameItem{i}")])?.ok_or("no mesh")?)?;
        }
    }
    Ok(())
}

fn small(t: &mut Tape, c: &mut Case) -> Res {
    let fmt = t.below(3);
    c.class(["obj", "glb", "gltf"][fmt as usize]);
    let mut items = vec![];
    let mut meshes = vec![];
    let n = t.usize(1, 3);
    for i in 0..n {
        let m = if t.chance(1, 10) {
            None
        } else {
            let nv = if t.chance(1, 20) { t.usize(30, 300) } else { t.usize(1, 12) };
            let nf = t.usize(0, 12);
            let nan = t.chance(1, 2);
            let m = mesh(t, nv, nf, nan);
            c.class_if(m.verts.iter().flatten().any(|x| f32::from_bits(*x).is_nan()), "not-a-number in a vertex");
            c.class_if(m.frames.iter().flatten().flatten().any(|x| f32::from_bits(*x).is_nan()), "not-a-number in a frame");
            c.class_if(m.idx.is_empty(), "no triangles");
            c.class_if(!m.frames.is_empty(), "animated");
            c.class_if(m.frames.len() > 9, "more than nine frames");
            c.class_if(m.idx.chunks(3).any(|x| x[0] == x[1] || x[1] == x[2]), "degenerate triangle");
            c.class_if((0..m.verts.len() as u32).any(|i| !m.idx.contains(&i)), "unused vertex");
            c.nontrivial |= !m.idx.is_empty();
            c.evals += m.verts.len() as u64;
            Some(m)
        };
        let name = match t.below(4) {
            0 => t.pick(&["", "a b", "x.y", "é", "json", "a_anim_0", "o", "#", "a\nb"]).to_string(),
            _ => format!("P{i}"),
        };
        items.push(primitive(t, &name, m.as_ref()));
        meshes.push(m);
    }
    c.classes.sort();
    c.classes.dedup();
    let tb = table_of(t, items);
    c.hash = streams_hash(&tb.streams());
    c.sample = Some(json!({"format": fmt, "meshes": meshes.iter().map(|m| m.as_ref().map(|m| json!({"vertices": m.verts.len(), "triangles": m.idx.len() / 3, "frames": m.frames.len()}))).collect::<Vec<_>>()}));
    let derived = t.chance(1, 8);
    check(&tb, &meshes, fmt, derived)
}

/// Around the largest count that 16-bit indices are used for.
fn large(t: &mut Tape, c: &mut Case) -> Res {
    let fmt = t.below(3);
    let nv = match t.below(4) {
        0 => 65535,
        1 => 65536,
        2 => t.usize(65530, 65545),
        _ => t.usize(65537, 80000),
    };
    c.class(["obj", "glb", "gltf"][fmt as usize]);
    c.class(if nv > 65535 { "32-bit indices" } else { "16-bit indices" });
    let base = mesh(t, 8, 0, false);
    let mut m = MeshM::default();
    for i in 0..nv {
        let mut v = base.verts[i % 8];
        v[0] = (i as f32).to_bits();
        m.verts.push(v);
    }
    let nf = t.usize(1, 60);
    faces(t, &mut m, nf);
    let k = nv as u32;
    m.idx.extend([k - 1, k / 2, 0, 65534.min(k - 1), 65535.min(k - 1), 65536.min(k - 1)]);
    if t.chance(1, 4) {
        m.frames.push(m.verts.iter().map(|v| [v[1], v[0], v[2], v[3], v[4], v[5]]).collect());
        c.class("animated");
    }
    c.nontrivial = true;
    c.evals = nv as u64;
    c.hash = crate::tape::mix(nv as u64 ^ fmt << 40) ^ hash(&m);
    c.sample = Some(json!({"format": fmt, "vertices": nv, "triangles": m.idx.len() / 3, "frames": m.frames.len()}));
    let it = primitive(t, "big", Some(&m));
    let tb = table_of(t, vec![it]);
    check(&tb, &[Some(m)], fmt, false)
}
fn hash(m: &MeshM) -> u64 {
    crate::tape::hash_bytes(&m.ibytes())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("mesh", ctx.n(16000, 400000), "at least one triangle; distinct by stream contents", small);
    ctx.sub("index-width", ctx.n(48, 1500), "a mesh of more than 65529 vertices", large);
}
