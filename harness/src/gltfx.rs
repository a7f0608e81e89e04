//! An independent reader and validator of glTF 2.0 documents.

use crate::engine::*;
use crate::ensure;
use serde_json::Value;
use std::collections::BTreeSet;

pub struct Doc {
    pub json: Value,
    pub bufs: Vec<Vec<u8>>,
}

pub fn unescape(uri: &str) -> Result<String, String> {
    let b = uri.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let h = uri.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()).ok_or(format!("uri {uri:?} has a stray %"))?;
                o.push(h);
                i += 3;
                continue;
            }
            c if c <= 32 || c == 127 || b"#?\"<>\\^`{|}".contains(&c) => return Err(format!("uri {uri:?} has a reserved character {:?}", c as char)),
            c => o.push(c),
        }
        i += 1;
    }
    String::from_utf8(o).map_err(|_| format!("uri {uri:?} is not text"))
}

fn u(v: &Value, what: &str) -> Result<usize, String> {
    v.as_u64().map(|x| x as usize).ok_or_else(|| format!("{what} is {v}"))
}
fn opt(v: &Value, d: usize, what: &str) -> Result<usize, String> {
    if v.is_null() { Ok(d) } else { u(v, what) }
}
fn arr<'a>(v: &'a Value) -> &'a [Value] {
    v.as_array().map(|x| &x[..]).unwrap_or(&[])
}
fn csize(t: usize) -> Result<usize, String> {
    Ok(match t {
        5120 | 5121 => 1,
        5122 | 5123 => 2,
        5125 | 5126 => 4,
        _ => return Err(format!("component type {t}")),
    })
}
fn ncomp(t: &str) -> Result<usize, String> {
    Ok(match t {
        "SCALAR" => 1,
        "VEC2" => 2,
        "VEC3" => 3,
        "VEC4" => 4,
        _ => return Err(format!("accessor type {t}")),
    })
}
fn finite(v: &Value, what: &str) -> Res {
    match v {
        Value::Null => Err(format!("{what} is null")),
        Value::Array(a) => a.iter().enumerate().try_for_each(|(i, x)| finite(x, &format!("{what}[{i}]"))),
        Value::Object(o) => o.iter().filter(|(k, _)| *k != "extras").try_for_each(|(k, x)| finite(x, &format!("{what}.{k}"))),
        _ => Ok(()),
    }
}

/// Splits a GLB file.
pub fn glb(d: &[u8]) -> Result<(Value, Option<Vec<u8>>), String> {
    let n = |p: usize| -> Result<usize, String> { d.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize).ok_or("GLB is truncated".to_string()) };
    ensure!(d.get(..4) == Some(b"glTF"), "no GLB magic");
    ensure!(n(4)? == 2, "GLB version {}", n(4)?);
    ensure!(n(8)? == d.len(), "GLB length {} for {} bytes", n(8)?, d.len());
    let mut p = 12;
    let mut json = None;
    let mut bin = None;
    let mut k = 0;
    while p < d.len() {
        let len = n(p)?;
        ensure!(len % 4 == 0, "chunk of {len} bytes");
        let ty = d.get(p + 4..p + 8).ok_or("GLB chunk header is truncated")?;
        let c = d.get(p + 8..p + 8 + len).ok_or("GLB chunk is truncated")?;
        match (k, ty) {
            (0, b"JSON") => json = Some(serde_json::from_slice(c).map_err(|e| format!("JSON chunk: {e}"))?),
            (1, b"BIN\0") => bin = Some(c.to_vec()),
            _ => return Err(format!("chunk {k} is {ty:?}")),
        }
        k += 1;
        p += 8 + len;
    }
    Ok((json.ok_or("no JSON chunk")?, bin))
}

impl Doc {
    pub fn from_glb(d: &[u8]) -> Result<Doc, String> {
        let (json, bin) = glb(d)?;
        Doc::new(json, bin, &|u| Err(format!("GLB refers to {u}")))
    }
    pub fn from_gltf(d: &[u8], file: &dyn Fn(&str) -> Result<Vec<u8>, String>) -> Result<Doc, String> {
        let json: Value = serde_json::from_slice(d).map_err(|e| format!("glTF: {e}"))?;
        Doc::new(json, None, file)
    }
    fn new(json: Value, bin: Option<Vec<u8>>, file: &dyn Fn(&str) -> Result<Vec<u8>, String>) -> Result<Doc, String> {
        let mut bufs = vec![];
        for (i, b) in arr(&json["buffers"]).iter().enumerate() {
            let len = u(&b["byteLength"], "byteLength")?;
            ensure!(len > 0, "empty buffer");
            let data = match b["uri"].as_str() {
                Some(uri) => file(&unescape(uri)?)?,
                None => {
                    ensure!(i == 0, "buffer {i} has no uri");
                    let d = bin.clone().ok_or("buffer without uri and no BIN chunk")?;
                    ensure!(d.len() < len + 4, "BIN chunk of {} bytes for a buffer of {len}", d.len());
                    d
                }
            };
            ensure!(data.len() >= len, "buffer {i}: {} bytes, {len} declared", data.len());
            bufs.push(data);
        }
        ensure!(bin.is_none() || !bufs.is_empty(), "a BIN chunk but no buffer");
        let d = Doc { json, bufs };
        d.validate()?;
        Ok(d)
    }
    pub fn arr(&self, k: &str) -> &[Value] {
        arr(&self.json[k])
    }
    fn at(&self, k: &str, i: &Value, what: &str) -> Result<usize, String> {
        let n = u(i, what)?;
        ensure!(n < self.arr(k).len(), "{what} refers to {k} {n} of {}", self.arr(k).len());
        Ok(n)
    }
    pub fn view(&self, i: usize) -> Result<&[u8], String> {
        let v = &self.arr("bufferViews")[i];
        let b = self.at("buffers", &v["buffer"], "bufferView.buffer")?;
        let (o, l) = (opt(&v["byteOffset"], 0, "byteOffset")?, u(&v["byteLength"], "byteLength")?);
        let len = u(&self.arr("buffers")[b]["byteLength"], "byteLength")?;
        ensure!(l > 0, "bufferView {i} is empty");
        ensure!(o + l <= len, "bufferView {i} covers {o}..{} of {len} bytes", o + l);
        Ok(&self.bufs[b][o..o + l])
    }
    /// The numbers of an accessor, one row per element.
    pub fn rows(&self, i: usize) -> Result<Vec<Vec<f64>>, String> {
        let a = &self.arr("accessors")[i];
        let ct = u(&a["componentType"], "componentType")?;
        let (cs, nc) = (csize(ct)?, ncomp(a["type"].as_str().unwrap_or(""))?);
        let n = u(&a["count"], "count")?;
        ensure!(n > 0, "accessor {i} is empty");
        let bv = self.at("bufferViews", &a["bufferView"], "accessor.bufferView")?;
        let view = self.view(bv)?;
        let v = &self.arr("bufferViews")[bv];
        let off = opt(&a["byteOffset"], 0, "byteOffset")?;
        let stride = opt(&v["byteStride"], cs * nc, "byteStride")?;
        if !v["byteStride"].is_null() {
            ensure!((4..=252).contains(&stride) && stride % 4 == 0, "byteStride {stride}");
        }
        ensure!(stride >= cs * nc, "byteStride {stride}");
        ensure!((off + opt(&v["byteOffset"], 0, "byteOffset")?) % cs == 0 && off % cs == 0, "accessor {i} is not aligned to {cs} bytes");
        ensure!(off + stride * (n - 1) + cs * nc <= view.len(), "accessor {i}: {n} elements from {off} do not fit the {} bytes of view {bv}", view.len());
        let mut o = Vec::with_capacity(n);
        for k in 0..n {
            let p = off + k * stride;
            o.push(
                (0..nc)
                    .map(|c| {
                        let q = &view[p + c * cs..p + c * cs + cs];
                        match ct {
                            5120 => q[0] as i8 as f64,
                            5121 => q[0] as f64,
                            5122 => i16::from_le_bytes([q[0], q[1]]) as f64,
                            5123 => u16::from_le_bytes([q[0], q[1]]) as f64,
                            5125 => u32::from_le_bytes(q.try_into().unwrap()) as f64,
                            _ => f32::from_le_bytes(q.try_into().unwrap()) as f64,
                        }
                    })
                    .collect(),
            );
        }
        Ok(o)
    }
    fn validate(&self) -> Res {
        let j = &self.json;
        ensure!(j["asset"]["version"] == "2.0", "asset version {}", j["asset"]["version"]);
        for (k, v) in j.as_object().ok_or("not an object")? {
            if v.is_array() {
                ensure!(!arr(v).is_empty(), "{k} is an empty array");
            }
        }
        finite(j, "document")?;
        for i in 0..self.arr("bufferViews").len() {
            self.view(i)?;
            let t = &self.arr("bufferViews")[i]["target"];
            ensure!(t.is_null() || t == 34962 || t == 34963, "bufferView {i} target {t}");
        }
        for i in 0..self.arr("accessors").len() {
            let rows = self.rows(i)?;
            let a = &self.arr("accessors")[i];
            for r in &rows {
                ensure!(r.iter().all(|x| x.is_finite()), "accessor {i} has the element {r:?}");
            }
            for (k, f) in [("min", f64::min as fn(f64, f64) -> f64), ("max", f64::max)] {
                if a[k].is_null() {
                    continue;
                }
                let m = arr(&a[k]);
                ensure!(m.len() == rows[0].len(), "accessor {i} {k} {}", a[k]);
                for c in 0..m.len() {
                    let want = rows.iter().map(|r| r[c]).reduce(f).unwrap();
                    let got = m[c].as_f64().ok_or("not a number")?;
                    ensure!(got == want || got as f32 == want as f32, "accessor {i} {k}[{c}] is {got}, the data has {want}");
                }
            }
        }
        for (mi, m) in self.arr("meshes").iter().enumerate() {
            ensure!(!arr(&m["primitives"]).is_empty(), "mesh {mi} has no primitives");
            for p in arr(&m["primitives"]) {
                let at = p["attributes"].as_object().ok_or("no attributes")?;
                let mut count = None;
                for (k, v) in at {
                    let i = self.at("accessors", v, k)?;
                    let a = &self.arr("accessors")[i];
                    let n = u(&a["count"], "count")?;
                    ensure!(count.is_none_or(|c| c == n), "mesh {mi}: attributes of {count:?} and {n} elements");
                    count = Some(n);
                    let want = match k.as_str() {
                        "POSITION" | "NORMAL" => "VEC3",
                        "TANGENT" => "VEC4",
                        x if x.starts_with("TEXCOORD_") => "VEC2",
                        x if x.starts_with('_') => continue,
                        x if x.starts_with("COLOR_") => continue,
                        x => return Err(format!("attribute {x}")),
                    };
                    ensure!(a["type"] == want && a["componentType"] == 5126, "{k} is {} of {}", a["type"], a["componentType"]);
                    if k == "POSITION" {
                        ensure!(a["min"].is_array() && a["max"].is_array(), "POSITION without bounds");
                    }
                    ensure!(self.arr("bufferViews")[u(&a["bufferView"], "")?]["target"] != 34963, "vertex data in an index view");
                }
                let n = count.ok_or("no attributes")?;
                ensure!(at.contains_key("POSITION"), "no positions");
                if !p["indices"].is_null() {
                    let i = self.at("accessors", &p["indices"], "indices")?;
                    let a = &self.arr("accessors")[i];
                    let ct = u(&a["componentType"], "componentType")?;
                    ensure!(a["type"] == "SCALAR" && matches!(ct, 5121 | 5123 | 5125), "indices are {} of {ct}", a["type"]);
                    let top = match ct {
                        5121 => 255,
                        5123 => 65535,
                        _ => u32::MAX as usize,
                    };
                    for (k, r) in self.rows(i)?.iter().enumerate() {
                        ensure!((r[0] as usize) < n, "mesh {mi}: index {k} is {} of {n} vertices", r[0]);
                        ensure!((r[0] as usize) < top, "mesh {mi}: index {k} is the restart value");
                    }
                    ensure!(self.arr("bufferViews")[u(&a["bufferView"], "")?]["target"] != 34962, "indices in a vertex view");
                    if opt(&p["mode"], 4, "mode")? == 4 {
                        ensure!(u(&a["count"], "count")? % 3 == 0, "{} indices for triangles", a["count"]);
                    }
                }
                if !p["material"].is_null() {
                    self.at("materials", &p["material"], "primitive.material")?;
                }
            }
        }
        self.materials()?;
        for (i, t) in self.arr("textures").iter().enumerate() {
            if !t["source"].is_null() {
                self.at("images", &t["source"], &format!("texture {i} source"))?;
            } else {
                let x = t["extensions"].as_object().and_then(|o| o.values().find(|v| !v["source"].is_null())).ok_or(format!("texture {i} has no source"))?;
                self.at("images", &x["source"], "texture source")?;
            }
            if !t["sampler"].is_null() {
                self.at("samplers", &t["sampler"], &format!("texture {i} sampler"))?;
            }
        }
        for (i, im) in self.arr("images").iter().enumerate() {
            ensure!(im["uri"].is_null() != im["bufferView"].is_null(), "image {i} has {} sources", if im["uri"].is_null() { "no" } else { "two" });
            if let Some(s) = im["uri"].as_str() {
                if !s.starts_with("data:") {
                    unescape(s)?;
                }
            } else {
                let v = self.at("bufferViews", &im["bufferView"], "image.bufferView")?;
                let d = self.view(v)?;
                let want = match im["mimeType"].as_str() {
                    Some("image/png") => d.starts_with(b"\x89PNG\r\n\x1a\n"),
                    Some("image/jpeg") => d.starts_with(b"\xff\xd8\xff"),
                    Some("image/webp") => d.starts_with(b"RIFF") && d.get(8..12) == Some(b"WEBP"),
                    Some(_) => true,
                    None => return Err(format!("image {i} has no mimeType")),
                };
                ensure!(want, "image {i} of type {} starts with {:02x?}", im["mimeType"], &d[..d.len().min(12)]);
            }
        }
        self.nodes()?;
        let used: BTreeSet<&str> = arr(&j["extensionsUsed"]).iter().filter_map(|x| x.as_str()).collect();
        ensure!(used.len() == arr(&j["extensionsUsed"]).len(), "extensionsUsed repeats itself");
        let mut found = BTreeSet::new();
        extensions(j, &mut found);
        for e in &found {
            ensure!(used.contains(e.as_str()), "extension {e} is not declared");
        }
        for e in arr(&j["extensionsRequired"]) {
            ensure!(e.as_str().is_some_and(|e| used.contains(e)), "required extension {e} is not declared");
        }
        Ok(())
    }
    fn texinfo(&self, v: &Value, what: &str) -> Res {
        if !v.is_null() {
            self.at("textures", &v["index"], what)?;
        }
        Ok(())
    }
    fn materials(&self) -> Res {
        let unit = |v: &Value, what: &str, n: usize| -> Res {
            if v.is_null() {
                return Ok(());
            }
            let xs: Vec<f64> = if n == 0 { vec![v.as_f64().ok_or(format!("{what} is {v}"))?] } else { arr(v).iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect() };
            ensure!(xs.len() == n.max(1), "{what} is {v}");
            ensure!(xs.iter().all(|x| (0.0..=1.0).contains(x)), "{what} is {v}");
            Ok(())
        };
        for (i, m) in self.arr("materials").iter().enumerate() {
            let w = |s: &str| format!("material {i} {s}");
            let p = &m["pbrMetallicRoughness"];
            unit(&p["baseColorFactor"], &w("baseColorFactor"), 4)?;
            unit(&p["metallicFactor"], &w("metallicFactor"), 0)?;
            unit(&p["roughnessFactor"], &w("roughnessFactor"), 0)?;
            unit(&m["emissiveFactor"], &w("emissiveFactor"), 3)?;
            self.texinfo(&p["baseColorTexture"], &w("baseColorTexture"))?;
            self.texinfo(&p["metallicRoughnessTexture"], &w("metallicRoughnessTexture"))?;
            self.texinfo(&m["normalTexture"], &w("normalTexture"))?;
            self.texinfo(&m["occlusionTexture"], &w("occlusionTexture"))?;
            self.texinfo(&m["emissiveTexture"], &w("emissiveTexture"))?;
            let a = &m["alphaMode"];
            ensure!(a.is_null() || a == "OPAQUE" || a == "MASK" || a == "BLEND", "material {i} alphaMode {a}");
            if !m["alphaCutoff"].is_null() {
                ensure!(m["alphaCutoff"].as_f64().is_some_and(|x| x >= 0.0), "material {i} alphaCutoff {}", m["alphaCutoff"]);
            }
            if let Some(x) = m["extensions"].as_object() {
                for (k, e) in x {
                    for f in ["transmissionFactor", "clearcoatFactor", "clearcoatRoughnessFactor", "specularFactor"] {
                        unit(&e[f], &format!("material {i} {k}.{f}"), 0)?;
                    }
                    if !e["ior"].is_null() {
                        ensure!(e["ior"].as_f64().is_some_and(|x| x >= 1.0 || x == 0.0), "material {i} ior {}", e["ior"]);
                    }
                    if !e["thicknessFactor"].is_null() {
                        ensure!(e["thicknessFactor"].as_f64().is_some_and(|x| x >= 0.0), "material {i} thickness {}", e["thicknessFactor"]);
                    }
                }
            }
        }
        Ok(())
    }
    fn nodes(&self) -> Res {
        let n = self.arr("nodes").len();
        let mut parent = vec![None; n];
        for (i, x) in self.arr("nodes").iter().enumerate() {
            for c in arr(&x["children"]) {
                let c = self.at("nodes", c, &format!("node {i} child"))?;
                ensure!(parent[c].is_none(), "node {c} has two parents");
                parent[c] = Some(i);
            }
            if !x["children"].is_null() {
                ensure!(!arr(&x["children"]).is_empty(), "node {i} has an empty list of children");
            }
            if !x["mesh"].is_null() {
                self.at("meshes", &x["mesh"], &format!("node {i} mesh"))?;
            }
            if !x["camera"].is_null() {
                self.at("cameras", &x["camera"], &format!("node {i} camera"))?;
            }
            let l = &x["extensions"]["KHR_lights_punctual"]["light"];
            if !l.is_null() {
                let k = u(l, "light")?;
                ensure!(k < arr(&self.json["extensions"]["KHR_lights_punctual"]["lights"]).len(), "node {i} refers to light {k}");
            }
            if !x["matrix"].is_null() {
                ensure!(arr(&x["matrix"]).len() == 16, "node {i} matrix {}", x["matrix"]);
                ensure!(x["translation"].is_null() && x["rotation"].is_null() && x["scale"].is_null(), "node {i} has a matrix and parts of one");
            }
            for (k, c) in [("translation", 3), ("rotation", 4), ("scale", 3)] {
                let v = &x[k];
                if v.is_null() {
                    continue;
                }
                ensure!(arr(v).len() == c && arr(v).iter().all(|y| y.as_f64().is_some_and(|y| y.is_finite())), "node {i} {k} {v}");
                if k == "rotation" {
                    let q: f64 = arr(v).iter().map(|y| y.as_f64().unwrap().powi(2)).sum();
                    ensure!((q - 1.0).abs() < 1e-4, "node {i} rotation {v} is not a unit quaternion");
                }
            }
        }
        for i in 0..n {
            let mut k = i;
            let mut steps = 0;
            while let Some(p) = parent[k] {
                k = p;
                steps += 1;
                ensure!(steps <= n, "node {i} is below itself");
            }
        }
        for s in self.arr("scenes") {
            let mut seen = BTreeSet::new();
            for x in arr(&s["nodes"]) {
                let k = self.at("nodes", x, "scene node")?;
                ensure!(parent[k].is_none(), "scene node {k} has a parent");
                ensure!(seen.insert(k), "scene lists node {k} twice");
            }
        }
        if !self.json["scene"].is_null() {
            self.at("scenes", &self.json["scene"], "scene")?;
        }
        for (i, c) in self.arr("cameras").iter().enumerate() {
            let p = &c["perspective"];
            if c["type"] == "perspective" {
                let f = |k: &str| p[k].as_f64();
                ensure!(f("yfov").is_some_and(|x| x > 0.0 && x < std::f64::consts::PI), "camera {i} yfov {}", p["yfov"]);
                ensure!(f("znear").is_some_and(|x| x > 0.0), "camera {i} znear {}", p["znear"]);
                ensure!(p["zfar"].is_null() || f("zfar") > f("znear"), "camera {i} zfar {}", p["zfar"]);
                ensure!(p["aspectRatio"].is_null() || f("aspectRatio").is_some_and(|x| x > 0.0), "camera {i} aspect {}", p["aspectRatio"]);
            } else {
                ensure!(c["type"] == "orthographic", "camera {i} type {}", c["type"]);
            }
        }
        for (i, l) in arr(&self.json["extensions"]["KHR_lights_punctual"]["lights"]).iter().enumerate() {
            ensure!(["point", "spot", "directional"].iter().any(|t| l["type"] == *t), "light {i} type {}", l["type"]);
            ensure!(l["intensity"].is_null() || l["intensity"].as_f64().is_some_and(|x| x >= 0.0), "light {i} intensity {}", l["intensity"]);
            ensure!(l["range"].is_null() || l["range"].as_f64().is_some_and(|x| x > 0.0), "light {i} range {}", l["range"]);
            ensure!(l["color"].is_null() || (arr(&l["color"]).len() == 3 && arr(&l["color"]).iter().all(|x| x.as_f64().is_some_and(|x| (0.0..=1.0).contains(&x)))), "light {i} color {}", l["color"]);
            if l["type"] == "spot" {
                let (a, b) = (l["spot"]["innerConeAngle"].as_f64().unwrap_or(0.0), l["spot"]["outerConeAngle"].as_f64().unwrap_or(std::f64::consts::FRAC_PI_4));
                ensure!(0.0 <= a && a < b && b <= std::f64::consts::FRAC_PI_2 + 1e-6, "light {i} cone {a} to {b}");
            }
        }
        Ok(())
    }
}
fn extensions(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| extensions(x, out)),
        Value::Object(o) => {
            for (k, x) in o {
                if k == "extensions" {
                    if let Some(e) = x.as_object() {
                        out.extend(e.keys().cloned());
                    }
                }
                if k != "extras" {
                    extensions(x, out);
                }
            }
        }
        _ => {}
    }
}
