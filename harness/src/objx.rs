//! An independent strict reader of Wavefront OBJ and MTL files.

use crate::ensure;
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct Object {
    pub name: String,
    /// how many positions, texture coordinates and normals come before it
    pub first: [usize; 3],
    /// (material, corners as 0-based position, texture coordinate, normal)
    pub faces: Vec<(Option<String>, Vec<(usize, Option<usize>, Option<usize>)>)>,
}
#[derive(Default, Debug)]
pub struct Obj {
    pub v: Vec<[f64; 3]>,
    pub vt: Vec<[f64; 2]>,
    pub vn: Vec<[f64; 3]>,
    pub objects: Vec<Object>,
    pub mtllib: Vec<String>,
}

fn nums<const N: usize>(rest: &[&str], line: usize) -> Result<[f64; N], String> {
    ensure!(rest.len() >= N, "line {line}: {} numbers", rest.len());
    let mut o = [0.0; N];
    for (k, s) in rest.iter().enumerate() {
        let x: f64 = s.parse().map_err(|_| format!("line {line}: {s:?} is not a number"))?;
        ensure!(x.is_finite() && !s.to_lowercase().contains('n'), "line {line}: {s} is not finite");
        if k < N {
            o[k] = x;
        }
    }
    Ok(o)
}

pub fn parse(data: &[u8]) -> Result<Obj, String> {
    let text = std::str::from_utf8(data).map_err(|e| format!("obj is not UTF-8: {e}"))?;
    let mut o = Obj::default();
    let mut mtl: Option<String> = None;
    for (i, l) in text.split('\n').enumerate() {
        let n = i + 1;
        let l = l.strip_suffix('\r').unwrap_or(l);
        let t: Vec<&str> = l.split_ascii_whitespace().collect();
        let Some(k) = t.first() else { continue };
        if k.starts_with('#') {
            continue;
        }
        let rest = &t[1..];
        match *k {
            "v" => o.v.push(nums::<3>(rest, n)?),
            "vt" => o.vt.push(nums::<2>(rest, n)?),
            "vn" => o.vn.push(nums::<3>(rest, n)?),
            "o" => o.objects.push(Object { name: l.trim_ascii_start()[1..].trim_ascii().to_string(), first: [o.v.len(), o.vt.len(), o.vn.len()], faces: vec![] }),
            "g" | "s" => {}
            "mtllib" => o.mtllib.push(l.trim_ascii_start()[6..].trim_ascii().to_string()),
            "usemtl" => {
                let m = l.trim_ascii_start()[6..].trim_ascii().to_string();
                mtl = Some(m);
            }
            "f" => {
                ensure!(rest.len() >= 3, "line {n}: a face of {} corners", rest.len());
                let mut c = vec![];
                for p in rest {
                    let q: Vec<&str> = p.split('/').collect();
                    ensure!(q.len() <= 3, "line {n}: corner {p:?}");
                    let idx = |s: Option<&&str>, len: usize, what: &str| -> Result<Option<usize>, String> {
                        let Some(s) = s else { return Ok(None) };
                        if s.is_empty() {
                            return Ok(None);
                        }
                        let x: usize = s.parse().map_err(|_| format!("line {n}: index {s:?}"))?;
                        ensure!(x >= 1 && x <= len, "line {n}: {what} {x} of {len}");
                        Ok(Some(x - 1))
                    };
                    c.push((idx(q.first(), o.v.len(), "vertex")?.ok_or("no vertex")?, idx(q.get(1), o.vt.len(), "texture coordinate")?, idx(q.get(2), o.vn.len(), "normal")?));
                }
                if o.objects.is_empty() {
                    o.objects.push(Object { first: [0; 3], ..Object::default() });
                }
                o.objects.last_mut().unwrap().faces.push((mtl.clone(), c));
            }
            x => return Err(format!("line {n}: keyword {x:?}")),
        }
    }
    Ok(o)
}

#[derive(Default, Debug, Clone)]
pub struct Mtl {
    pub nums: BTreeMap<String, Vec<f64>>,
    pub maps: BTreeMap<String, String>,
}
/// A material file that defines every material once.
pub fn parse_mtl(data: &[u8]) -> Result<Vec<(String, Mtl)>, String> {
    let o = parse_mtl_blocks(data)?;
    for (i, m) in o.iter().enumerate() {
        ensure!(!o[..i].iter().any(|x| x.0 == m.0), "material {} is defined twice", m.0);
    }
    Ok(o)
}
pub fn parse_mtl_blocks(data: &[u8]) -> Result<Vec<(String, Mtl)>, String> {
    let text = std::str::from_utf8(data).map_err(|e| format!("mtl is not UTF-8: {e}"))?;
    let mut o: Vec<(String, Mtl)> = vec![];
    for (i, l) in text.split('\n').enumerate() {
        let n = i + 1;
        let l = l.strip_suffix('\r').unwrap_or(l).trim_ascii();
        let Some(k) = l.split_ascii_whitespace().next() else { continue };
        if k.starts_with('#') {
            continue;
        }
        let rest = l[k.len()..].trim_ascii();
        if k == "newmtl" {
            o.push((rest.to_string(), Mtl::default()));
            continue;
        }
        let m = &mut o.last_mut().ok_or(format!("mtl line {n}: {k} before newmtl"))?.1;
        match k {
            "Ka" | "Kd" | "Ks" | "Ke" | "Tf" => {
                let v = nums::<3>(&rest.split_ascii_whitespace().collect::<Vec<_>>(), n)?;
                m.nums.insert(k.into(), v.to_vec());
            }
            "Ns" | "Ni" | "d" | "Tr" | "illum" | "Pr" | "Pm" => {
                let v = nums::<1>(&rest.split_ascii_whitespace().collect::<Vec<_>>(), n)?;
                m.nums.insert(k.into(), v.to_vec());
            }
            k if k.starts_with("map_") || k == "bump" || k == "norm" || k == "disp" => {
                ensure!(!rest.is_empty(), "mtl line {n}: {k} without file");
                m.maps.insert(k.into(), rest.to_string());
            }
            _ => return Err(format!("mtl line {n}: keyword {k:?}")),
        }
    }
    Ok(o)
}
