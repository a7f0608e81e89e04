//! P27: expanded tables that are spelled, arranged or filled differently.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p01::{classes, summary};
use crate::p02::{INFO, item_file, profile};
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::{Map, Value, json};

fn table(t: &mut Tape, c: &mut Case) -> Table {
    let p = profile(t);
    let p = Prof { types: if t.bool() { vec![19, 19, 7, 8, 12, 10, 6, 22, 20, 4, 3, 9, 24, 1] } else { ALL_TYPES.to_vec() }, ..p };
    let mut tb = gen_table(t, &p);
    derive_legacy_tables(&mut tb);
    if !tb.colls.is_empty() && t.chance(1, 6) {
        let k = t.usize(0, tb.colls.len() - 1);
        tb.colls[k][0].val = Val::WStr(String::new());
    }
    classes(&tb, c);
    tb
}

// ---- the same table in other words ----

/// JSON text with another layout, key order and escapes
fn spell(t: &mut Tape, v: &Value, o: &mut String) {
    fn gap(t: &mut Tape, o: &mut String) {
        if t.chance(1, 8) {
            o.push_str(*t.pick(&[" ", "\n", "\r\n", "\t", "   \n"]));
        }
    }
    fn text(t: &mut Tape, s: &str, o: &mut String) {
        if !t.chance(1, 4) {
            return o.push_str(&serde_json::to_string(s).unwrap());
        }
        o.push('"');
        for ch in s.chars() {
            if ch.is_ascii_alphanumeric() && !t.chance(1, 8) {
                o.push(ch);
            } else if ch == '/' && t.bool() {
                o.push_str("\\/");
            } else {
                let mut b = [0u16; 2];
                for u in ch.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
        }
        o.push('"');
    }
    gap(t, o);
    match v {
        Value::String(s) => text(t, s, o),
        Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                spell(t, x, o);
            }
            gap(t, o);
            o.push(']');
        }
        Value::Object(m) => {
            let ks: Vec<&String> = m.keys().collect();
            let pm = if t.bool() { t.perm(ks.len()) } else { (0..ks.len()).collect() };
            o.push('{');
            for (i, k) in pm.into_iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                gap(t, o);
                text(t, ks[k], o);
                gap(t, o);
                o.push(':');
                spell(t, &m[ks[k]], o);
            }
            gap(t, o);
            o.push('}');
        }
        x => o.push_str(&x.to_string()),
    }
    gap(t, o);
}

/// whole numbers without a fraction, nulls left out
fn respell(t: &mut Tape, v: &mut Value, ints: bool, nulls: bool) {
    match v {
        Value::Number(n) if ints && n.is_f64() => {
            let x = n.as_f64().unwrap();
            if x.fract() == 0.0 && x.abs() < 9e18 && !(x == 0.0 && x.is_sign_negative()) && t.bool() {
                *v = json!(x as i64);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| respell(t, x, ints, nulls)),
        Value::Object(m) => {
            if nulls {
                let dead: Vec<String> = m.iter().filter(|x| x.1.is_null()).map(|x| x.0.clone()).collect();
                for k in dead {
                    if t.bool() {
                        m.remove(&k);
                    }
                }
            }
            m.values_mut().for_each(|x| respell(t, x, ints, nulls));
        }
        _ => {}
    }
}
fn rename(o: &mut Map<String, Value>, from: &str, to: &str) -> bool {
    match o.remove(from) {
        Some(v) => {
            o.insert(to.into(), v);
            true
        }
        None => false,
    }
}
fn note(t: &mut Tape, o: &mut Map<String, Value>) {
    let v = match t.below(4) {
        0 => json!("a remark"),
        1 => json!(3),
        2 => json!({"x": [1, null]}),
        _ => Value::Null,
    };
    o.insert(t.pick(&["x_note", "comment", "$schema", "editor"]).to_string(), v);
}
fn inner(v: &mut Value) -> &mut Map<String, Value> {
    v.as_object_mut().unwrap().values_mut().next().unwrap().as_object_mut().unwrap()
}
/// the number of an enumerated value of the game data
fn gd_enum(x: &Rec) -> Option<u32> {
    match &x.val {
        Val::U32(v) if x.key.starts_with("bg_view_mode") || x.key == "tone_mapper" => Some(*v),
        _ => None,
    }
}

/// Mesh files of a part under another name; with the files of glTF buffers
fn mesh_files(f: &Files, dir: &str, stem: &str) -> Vec<String> {
    let is = |k: &str| {
        let Some(r) = k.strip_prefix(&format!("{dir}/{stem}")) else { return false };
        let r = match r.strip_prefix("_anim_") {
            Some(n) => n.trim_start_matches(|c: char| c.is_ascii_digit()),
            None => r,
        };
        [".obj", ".glb", ".gltf", ".bin"].contains(&r)
    };
    f.keys().filter(|k| is(k)).cloned().collect()
}
fn move_mesh(from: &Files, to: &mut Files, stem: &str, new: &str, take: bool) -> Result<(), String> {
    let dir = format!("{ROOT}/gameitems");
    for k in mesh_files(from, &dir, stem) {
        let rest = k[dir.len() + 1 + stem.len()..].to_string();
        let mut d = from[&k].clone();
        if rest.ends_with(".gltf") {
            let mut v: Value = serde_json::from_slice(&d).map_err(|e| format!("{k}: {e}"))?;
            for b in v["buffers"].as_array_mut().into_iter().flatten() {
                let u = b["uri"].as_str().unwrap_or("").to_string();
                ensure!(u == format!("{}.bin", rest_stem(stem, &rest)), "{k} refers to {u:?}");
                b["uri"] = json!(format!("{}.bin", rest_stem(new, &rest)));
            }
            d = serde_json::to_vec(&v).unwrap();
        }
        if take {
            to.remove(&k);
        }
        to.insert(format!("{dir}/{new}{rest}"), d);
    }
    Ok(())
}
fn rest_stem(stem: &str, rest: &str) -> String {
    format!("{stem}{}", rest.rsplit_once('.').unwrap().0)
}
fn stem_of(file: &str) -> String {
    file.trim_start_matches("gameitems/").strip_suffix(".json").unwrap_or(file.trim_start_matches("gameitems/")).to_string()
}
/// the file of a listed resource
fn res_file(dir: &str, e: &Value) -> Option<(String, String)> {
    if e["link"] == json!(1) {
        return None;
    }
    let stem = e["name_dedup"].as_str().or(e["name"].as_str())?;
    let base = e["path"].as_str()?;
    let base = if dir == "images" { base } else { base.rsplit(['/', '\\']).next().unwrap() };
    let ext = base.rsplit_once('.').map_or("wav", |x| x.1);
    Some((format!("{ROOT}/{dir}/{stem}.{ext}"), ext.to_string()))
}
const RES: [&str; 3] = ["images", "sounds", "fonts"];
fn new_stem(t: &mut Tape, k: usize) -> String {
    let s: &str = *t.pick(&["new", "Moved part", "Größe", "日本", "a.b", "x_1", "under__1", "json.json"]);
    format!("{s} n{k}")
}

/// Meshes in other formats; of several formats the first counts.
fn mesh_forms(t: &mut Tape, c: &mut Case, v: &vpin::vpx::VPX, tb: &Table, f: &mut Files, fmt: u64, what: &mut Vec<String>) -> Res {
        let all = [expand(v, 0, false)?, expand(v, 1, false)?, expand(v, 2, false)?];
        let dir = format!("{ROOT}/gameitems");
        let prims: Vec<usize> = (0..tb.items.len()).filter(|i| tb.items[*i].ty == 19).collect();
        for &i in &prims {
            let file = item_file(f, i)?;
            ensure!(all.iter().all(|g| item_file(g, i).as_ref() == Ok(&file)), "part {i} has another file name in another format");
            let stem = stem_of(&file);
            let of_slot = |g: &Files, anim: bool| -> Vec<String> { mesh_files(g, &dir, &stem).into_iter().filter(|k| k[dir.len() + 1 + stem.len()..].starts_with("_anim_") == anim).collect() };
            for anim in [false, true] {
                if of_slot(f, anim).is_empty() || !t.chance(2, 3) {
                    continue;
                }
                for k in of_slot(f, anim) {
                    f.remove(&k);
                }
                let own = t.usize(0, 2);
                for k in of_slot(&all[own], anim) {
                    f.insert(k.clone(), all[own][&k].clone());
                }
                c.class_if(own as u64 != fmt, "mesh in another format");
                what.push(format!("{} of {i} in format {own}", if anim { "frames" } else { "mesh" }));
                // the mesh of another primitive in a format that comes later
                for later in own + 1..3 {
                    if !t.bool() {
                        continue;
                    }
                    let j = *t.pick(&prims);
                    let from = stem_of(&item_file(f, j)?);
                    let mut tmp = Files::new();
                    move_mesh(&all[later], &mut tmp, &from, &stem, false)?;
                    for (k, d) in tmp {
                        if k[dir.len() + 1 + stem.len()..].starts_with("_anim_") == anim && !f.contains_key(&k) {
                            f.insert(k, d);
                            c.class(if anim { "frames in several formats" } else { "mesh in several formats" });
                        }
                    }
                    what.push(format!("and the one of {j} in format {later}"));
                }
            }
        }
    Ok(())
}
fn mesh_files_of(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { types: vec![19], mesh_max: 8, max_items: 3, max_res: 0, ..profile(t) };
    let mut tb = gen_table(t, &p);
    for it in tb.items.iter_mut() {
        if it.get("M3CX").is_none() || t.chance(2, 3) {
            it.recs.retain(|x| !x.tag.starts_with("M3"));
            let (nv, nf) = (t.usize(1, 6), t.usize(1, 4));
            let mut m = gen_mesh(t, &p, nv, nf);
            for _ in 0..t.usize(0, 4) {
                let q = gen_mesh(t, &p, nv, 1);
                m.frames.push(q.verts.iter().map(|x| std::array::from_fn(|i| x[i])).collect());
            }
            let at = it.recs.iter().position(|x| x.tag == "PIDB").unwrap_or(it.recs.len());
            it.recs.splice(at..at, m.recs());
        }
    }
    derive_legacy_tables(&mut tb);
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let v = parse(&s)?;
    let fmt = t.below(3);
    let mut f = expand(&v, fmt, false)?;
    let mut what = vec![];
    mesh_forms(t, c, &v, &tb, &mut f, fmt, &mut what)?;
    c.nontrivial = !what.is_empty();
    c.sample = Some(json!({"table": summary(&tb), "changes": what}));
    let got = assemble(&f).map_err(|e| format!("after {what:?}: {e}"))?;
    diff_streams(&normalise(&s), &normalise(&save(&got)?)).map_err(|e| format!("after {what:?}: {e}"))
}
fn forms(t: &mut Tape, c: &mut Case) -> Res {
    let tb = table(t, c);
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let v = parse(&s)?;
    let fmt = t.below(3);
    let mut f = expand(&v, fmt, false)?;
    let want = normalise(&save(&assemble(&f)?)?);
    diff_streams(&normalise(&s), &want)?;
    let mut what: Vec<String> = vec![];
    let n = tb.items.len();
    // enumerated values by number, old names
    if t.bool() {
        for (i, it) in tb.items.iter().enumerate() {
            let file = item_file(&f, i)?;
            let mut j = json(&f, &file)?;
            let o = inner(&mut j);
            let ty = type_name(it.ty);
            for x in &it.recs {
                if let Val::Enum(v) = &x.val {
                    if x.key != "space_reference" && t.bool() {
                        ensure!(o.contains_key(x.key), "{file}: no key {}", x.key);
                        o.insert(x.key.into(), json!(v));
                        what.push(format!("{ty} {} = {v}", x.key));
                        c.class("number for a name in a part");
                    }
                }
            }
            if ty == "light" && t.bool() && rename(o, "image", "off_image") {
                what.push("off_image".into());
                c.class("old key");
            }
            if ty == "flipper" && t.bool() && rename(o, "return", "return_") {
                what.push("return_".into());
                c.class("old key");
            }
            set_json(&mut f, &file, &j);
        }
        let mut j = json(&f, "gamedata.json")?;
        for x in &tb.gd {
            if let Some(v) = gd_enum(x) {
                match t.below(3) {
                    0 => {}
                    1 if x.key == "tone_mapper" && v == 1 => {
                        j[x.key] = json!("tony_mc_mapface");
                        what.push("tony_mc_mapface".into());
                        c.class("old name of a value");
                    }
                    _ => {
                        j[x.key] = json!(v);
                        what.push(format!("{} = {v}", x.key));
                        c.class("number for a name in the game data");
                    }
                }
            }
        }
        set_json(&mut f, "gamedata.json", &j);
        for (file, tag) in [("materials.json", "MATR"), ("renderprobes.json", "RPRB")] {
            if !f.contains_key(&format!("{ROOT}/{file}")) {
                continue;
            }
            let mut j = json(&f, file)?;
            let recs: Vec<&Rec> = tb.gd.iter().filter(|x| x.tag == tag).collect();
            for (e, x) in j.as_array_mut().unwrap().iter_mut().zip(recs) {
                let o = e.as_object_mut().unwrap();
                let Val::Nested(rs, _) = &x.val else { unreachable!() };
                for y in rs {
                    match &y.val {
                        Val::Enum(v) if t.bool() => {
                            o.insert(y.key.into(), json!(v));
                            what.push(format!("probe {} = {v}", y.key));
                            c.class("number for a name in a probe");
                        }
                        Val::I32(_) if tag == "MATR" && y.key == "type" && t.bool() => {
                            let n = o["type"].as_str().unwrap().to_string();
                            let n = if t.bool() { n.to_uppercase() } else { n[..1].to_uppercase() + &n[1..] };
                            what.push(n.clone());
                            o.insert("type".into(), json!(n));
                            c.class("name in capitals");
                        }
                        _ => {}
                    }
                }
                if t.bool() && rename(o, "type", "type_") {
                    what.push("type_".into());
                    c.class("old key");
                }
            }
            set_json(&mut f, file, &j);
        }
        let mut j = json(&f, "sounds.json")?;
        for (e, s) in j.as_array_mut().unwrap().iter_mut().zip(&tb.sounds) {
            if t.bool() {
                e["output_target"] = json!(s.target);
                what.push(format!("output_target = {}", s.target));
                c.class("number for a name in a sound");
            }
            if s.internal.is_empty() {
                e.as_object_mut().unwrap().remove("internal_name");
                what.push("no internal_name".into());
                c.class("key left out");
            }
        }
        set_json(&mut f, "sounds.json", &j);
    }
    // keys that are absent as null
    if t.chance(1, 3) {
        for (i, it) in tb.items.iter().enumerate() {
            let file = item_file(&f, i)?;
            let mut j = json(&f, &file)?;
            let fs = &schema().items.iter().find(|x| x.0 == it.ty).unwrap().2;
            for x in fs.iter().filter(|x| x.opt && !x.key.starts_with('#') && x.key != "-" && !x.key.is_empty() && !x.key.contains('[')) {
                if !it.recs.iter().any(|r| r.tag == x.tag) && !inner(&mut j).contains_key(x.key) && !(x.key == "image" && inner(&mut j).contains_key("off_image")) && t.bool() {
                    inner(&mut j).insert(x.key.into(), Value::Null);
                    what.push(format!("{} null", x.key));
                    c.class("null for an absent value");
                }
            }
            set_json(&mut f, &file, &j);
        }
    }
    // other names of files
    if t.chance(1, 3) {
        let mut ix = json(&f, "gameitems.json")?;
        for i in 0..n {
            if !t.bool() {
                continue;
            }
            let old = item_file(&f, i)?;
            let new = new_stem(t, i);
            let d = f.remove(&format!("{ROOT}/{old}")).ok_or("part file missing")?;
            f.insert(format!("{ROOT}/gameitems/{new}.json"), d);
            let snap = f.clone();
            if tb.items[i].ty == 19 {
                move_mesh(&snap, &mut f, &stem_of(&old), &new, true)?;
                c.class("mesh files renamed");
            }
            ix[i]["file_name"] = json!(format!("{new}.json"));
            what.push(format!("{old} as {new}"));
            c.class("part file renamed");
        }
        set_json(&mut f, "gameitems.json", &ix);
        for dir in RES {
            let file = format!("{dir}.json");
            let mut j = json(&f, &file)?;
            for (k, e) in j.as_array_mut().unwrap().iter_mut().enumerate() {
                let Some((old, ext)) = res_file(dir, e) else { continue };
                if !t.bool() {
                    continue;
                }
                let Some(d) = f.remove(&old) else { return Err(format!("{old} is missing")) };
                let new = new_stem(t, k);
                f.insert(format!("{ROOT}/{dir}/{new}.{ext}"), d);
                e["name_dedup"] = json!(new);
                what.push(format!("{old} as {new}"));
                c.class("resource file renamed");
            }
            set_json(&mut f, &file, &j);
        }
    } else if t.chance(1, 2) {
        mesh_forms(t, c, &v, &tb, &mut f, fmt, &mut what)?;
    }
    // files nobody refers to
    if t.chance(1, 3) {
        for k in ["README.md", ".gitignore", "gameitems/zz unused.json", "gameitems/zz unused.obj", "images/zz unused.png", "sounds/zz unused.wav", "fonts/zz unused.ttf", "script.vbs.bak", "other/x.json", "screenshot.jpg"] {
            if t.bool() {
                let n = t.usize(0, 20);
                f.insert(format!("{ROOT}/{k}"), t.bytes(n));
                c.class("unrelated file");
            }
        }
        // next to the ones that are referred to
        for k in f.keys().cloned().collect::<Vec<_>>() {
            let rel = k[ROOT.len() + 1..].to_string();
            let Some((dir, file)) = rel.split_once('/') else { continue };
            let Some((stem, ext)) = file.rsplit_once('.') else { continue };
            if !t.chance(1, 3) {
                continue;
            }
            let e = match dir {
                "gameitems" => *t.pick(&["json.bak", "json~", "mtl", "txt", "OBJ.orig", "fbx", "png"]),
                // what is asked for is never left out here, so none of these stands in for it
                "images" => *t.pick(&["webp", "png", "jpg", "bmp", "hdr", "txt", "json"]),
                "sounds" => *t.pick(&["wav", "ogg", "mp3", "txt", "json"]),
                _ => *t.pick(&["ttf", "otf", "txt"]),
            };
            let new = format!("{ROOT}/{dir}/{stem}.{e}");
            if e.eq_ignore_ascii_case(ext) || f.keys().any(|k| k.to_lowercase() == new.to_lowercase()) {
                continue;
            }
            let n = t.usize(0, 20);
            f.insert(new, t.bytes(n));
            c.class("unrelated file of the same name");
        }
    }
    // layout
    if t.chance(2, 3) {
        let (ints, nulls, notes, text) = (t.bool(), t.bool(), t.bool(), t.bool());
        for k in f.keys().cloned().collect::<Vec<_>>() {
            let part = k.starts_with(&format!("{ROOT}/gameitems/"));
            let rel = k[ROOT.len() + 1..].to_string();
            if !k.ends_with(".json") || (rel.contains('/') && !part) || k.contains("zz unused") {
                continue;
            }
            let mut j = json(&f, &rel)?;
            respell(t, &mut j, ints, nulls);
            if notes && !rel.contains("-old") {
                if part {
                    note(t, inner(&mut j));
                } else if let Some(o) = j.as_object_mut() {
                    note(t, o);
                } else if let Some(a) = j.as_array_mut() {
                    for e in a.iter_mut().filter_map(|x| x.as_object_mut()) {
                        if t.bool() {
                            note(t, e);
                        }
                    }
                }
            }
            if text {
                let mut o = String::new();
                spell(t, &j, &mut o);
                f.insert(k, o.into_bytes());
            } else {
                f.insert(k, serde_json::to_vec(&j).unwrap());
            }
        }
        c.class_if(ints, "whole numbers without fraction");
        c.class_if(nulls, "nulls left out");
        c.class_if(notes, "unknown keys");
        c.class_if(text, "other layout, order and escapes");
        what.push(format!("layout {ints} {nulls} {notes} {text}"));
    }
    c.nontrivial = !what.is_empty();
    c.evals = s.len() as u64;
    c.sample = Some(json!({"table": summary(&tb), "changes": what.iter().take(30).collect::<Vec<_>>()}));
    let got = assemble(&f).map_err(|e| format!("after {what:?}: {e}"))?;
    diff_streams(&want, &normalise(&save(&got)?)).map_err(|e| format!("after {what:?}: {e}"))
}

// ---- lists rearranged, files replaced ----

/// the same change to a list and its JSON
fn relist<T: Clone>(t: &mut Tape, c: &mut Case, l: &mut Vec<T>, j: &mut Vec<Value>, min: usize) -> Result<Option<String>, String> {
    ensure!(l.len() == j.len(), "{} entries for {}", j.len(), l.len());
    if l.is_empty() {
        return Ok(None);
    }
    match t.below(3) {
        0 => {
            let pm = t.perm(l.len());
            *l = pm.iter().map(|i| l[*i].clone()).collect();
            *j = pm.iter().map(|i| j[*i].clone()).collect();
            c.class("list reordered");
            Ok(Some(format!("order {pm:?}")))
        }
        1 => {
            if l.len() <= min {
                return Ok(None);
            }
            let i = t.usize(0, l.len() - 1);
            l.remove(i);
            j.remove(i);
            c.class("entry removed");
            Ok(Some(format!("without {i}")))
        }
        _ => {
            let (i, k) = (t.usize(0, l.len() - 1), t.usize(0, l.len()));
            l.insert(k, l[i].clone());
            j.insert(k, j[i].clone());
            c.class("entry repeated");
            Ok(Some(format!("{i} again at {k}")))
        }
    }
}
fn nested_list(gd: &mut Vec<Rec>, tag: &str) -> (usize, Vec<Rec>) {
    let at = gd.iter().position(|x| x.tag == tag).unwrap_or(0);
    let l = gd.iter().filter(|x| x.tag == tag).cloned().collect();
    gd.retain(|x| x.tag != tag);
    (at, l)
}
fn wav(f: (u16, u16, u32, u32, u16, u16), data: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    b.extend_from_slice(b"WAVEfmt \x10\0\0\0");
    b.extend(f.0.to_le_bytes());
    b.extend(f.1.to_le_bytes());
    b.extend(f.2.to_le_bytes());
    b.extend(f.3.to_le_bytes());
    b.extend(f.4.to_le_bytes());
    b.extend(f.5.to_le_bytes());
    b.extend_from_slice(b"data");
    b.extend((data.len() as u32).to_le_bytes());
    b.extend_from_slice(data);
    if data.len() % 2 == 1 {
        b.push(0);
    }
    let mut o = b"RIFF".to_vec();
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
    o
}

fn lists(t: &mut Tape, c: &mut Case) -> Res {
    let tb = table(t, c);
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let fmt = t.below(3);
    let mut f = expand(&parse(&s)?, fmt, false)?;
    let mut nt = tb.clone();
    let mut what: Vec<String> = vec![];
    for k in 0..t.usize(1, 4) {
        let w = one_list(t, c, &tb.version, fmt, &mut nt, &mut f, k)?;
        what.extend(w);
    }
    derive_legacy_tables(&mut nt);
    nt.fix_counts();
    c.nontrivial = !what.is_empty();
    c.evals = s.len() as u64;
    c.sample = Some(json!({"table": summary(&tb), "changes": what}));
    let got = assemble(&f).map_err(|e| format!("after {what:?}: {e}"))?;
    diff_streams(&normalise(&nt.streams()), &normalise(&save(&got)?)).map_err(|e| format!("after {what:?}: {e}"))
}

fn one_list(t: &mut Tape, c: &mut Case, version: &u32, fmt: u64, nt: &mut Table, f: &mut Files, step: usize) -> Result<Option<String>, String> {
    fn list(f: &Files, file: &str) -> Result<Vec<Value>, String> {
        if !f.contains_key(&format!("{ROOT}/{file}")) {
            return Ok(vec![]);
        }
        Ok(json(f, file)?.as_array().ok_or("not a list")?.clone())
    }
    macro_rules! edit {
        ($l:expr, $file:expr) => {{
            let mut j = list(f, $file)?;
            let w = relist(t, c, &mut $l, &mut j, 0)?;
            set_json(f, $file, &Value::Array(j));
            Ok(w.map(|x| format!("{} {x}", $file)))
        }};
    }
    match t.below(10) {
        0 | 1 => edit!(nt.items, "gameitems.json"),
        2 => edit!(nt.images, "images.json"),
        3 => edit!(nt.sounds, "sounds.json"),
        4 => edit!(nt.fonts, "fonts.json"),
        5 => edit!(nt.colls, "collections.json"),
        6 => {
            let (file, tag) = *t.pick(&[("materials.json", "MATR"), ("renderprobes.json", "RPRB")]);
            let (at, mut l) = nested_list(&mut nt.gd, tag);
            if l.is_empty() {
                return Ok(None);
            }
            let mut j = list(f, file)?;
            let w = relist(t, c, &mut l, &mut j, 1)?;
            set_json(f, file, &Value::Array(j));
            nt.gd.splice(at..at, l);
            Ok(w.map(|x| format!("{file} {x}")))
        }
        7 => {
            // a listing that is not there lists nothing
            let (file, k) = *t.pick(&[("images.json", 0), ("sounds.json", 1), ("fonts.json", 2), ("collections.json", 3), ("gameitems.json", 4)]);
            set_json(f, file, &json!([]));
            if t.bool() {
                f.remove(&format!("{ROOT}/{file}"));
            }
            match k {
                0 => nt.images.clear(),
                1 => nt.sounds.clear(),
                2 => nt.fonts.clear(),
                3 => nt.colls.clear(),
                _ => nt.items.clear(),
            }
            c.class("listing emptied");
            Ok(Some(format!("{file} empty")))
        }
        8 => {
            // table information
            let mut v = json(f, "info.json")?;
            let w = match t.below(3) {
                0 => {
                    let name = format!("added {step}");
                    if nt.info.iter().any(|x| x.0 == name) {
                        return Ok(None);
                    }
                    let s = gen_wide(t);
                    v["properties"][&name] = json!(s);
                    nt.info.push((name.clone(), utf16(&s)));
                    if t.bool() {
                        let at = t.usize(0, nt.cust.len());
                        nt.cust.insert(at, name.clone());
                        v["properties_order"] = json!(nt.cust);
                    }
                    format!("property {name}")
                }
                1 => {
                    let own: Vec<usize> = (0..nt.info.len()).filter(|i| !FIXED_INFO.contains(&nt.info[*i].0.as_str())).collect();
                    if own.is_empty() {
                        return Ok(None);
                    }
                    let i = *t.pick(&own);
                    let (name, _) = nt.info.remove(i);
                    v["properties"].as_object_mut().unwrap().remove(&name);
                    nt.cust.retain(|x| *x != name);
                    v["properties_order"] = json!(nt.cust);
                    format!("without property {name}")
                }
                _ => {
                    let own: Vec<usize> = (0..nt.info.len()).filter(|i| INFO.iter().any(|x| x.0 == nt.info[*i].0)).collect();
                    if own.is_empty() {
                        return Ok(None);
                    }
                    let i = *t.pick(&own);
                    let (name, _) = nt.info.remove(i);
                    let k = INFO.iter().find(|x| x.0 == name).unwrap().1;
                    if t.bool() {
                        v[k] = Value::Null;
                    } else {
                        v.as_object_mut().unwrap().remove(k);
                    }
                    format!("without {name}")
                }
            };
            set_json(f, "info.json", &v);
            c.class("table information added or removed");
            Ok(Some(w))
        }
        _ => {
            // parts and resources of another table
            let p = Prof { versions: vec![*version], unique_names: true, weird_names: false, max_items: 3, max_res: 2, ..Prof::default() };
            let mut tb = gen_table(t, &p);
            derive_legacy_tables(&mut tb);
            let g = expand(&parse(&tb.streams())?, if t.bool() { fmt } else { t.below(3) }, false)?;
            let (mut ix, gx) = (list(f, "gameitems.json")?, list(&g, "gameitems.json")?);
            let mut n = 0;
            for (i, it) in tb.items.iter().enumerate() {
                if t.chance(1, 3) {
                    continue;
                }
                let file = item_file(&g, i)?;
                let new = format!("added {step} {i}");
                f.insert(format!("{ROOT}/gameitems/{new}.json"), g[&format!("{ROOT}/{file}")].clone());
                if it.ty == 19 {
                    move_mesh(&g, f, &stem_of(&file), &new, false)?;
                    c.class("mesh added");
                }
                let mut e = gx[i].clone();
                e["file_name"] = json!(format!("{new}.json"));
                let at = t.usize(0, ix.len());
                ix.insert(at, e);
                nt.items.insert(at, it.clone());
                n += 1;
                c.class("part added");
            }
            set_json(f, "gameitems.json", &Value::Array(ix));
            for dir in RES {
                let file = format!("{dir}.json");
                let (mut j, gj) = (list(f, &file)?, list(&g, &file)?);
                for (i, e) in gj.iter().enumerate() {
                    let mut e = e.clone();
                    if let Some((old, ext)) = res_file(dir, &e) {
                        let new = format!("added {step} {i}");
                        let Some(d) = g.get(&old) else { return Err(format!("{old} is missing")) };
                        f.insert(format!("{ROOT}/{dir}/{new}.{ext}"), d.clone());
                        e["name_dedup"] = json!(new);
                    }
                    let at = t.usize(0, j.len());
                    j.insert(at, e);
                    match dir {
                        "images" => nt.images.insert(at, tb.images[i].clone()),
                        "sounds" => nt.sounds.insert(at, tb.sounds[i].clone()),
                        _ => nt.fonts.insert(at, tb.fonts[i].clone()),
                    }
                    n += 1;
                    c.class("resource added");
                }
                set_json(f, &file, &Value::Array(j));
            }
            Ok((n > 0).then(|| format!("{n} entries of another table")))
        }
    }
}

fn set_rec(rs: &mut [Rec], tag: &str, v: Val) {
    if let Some(x) = rs.iter_mut().find(|x| x.tag == tag) {
        x.val = v;
    }
}
fn swap_ext(p: &str, ext: &str) -> String {
    format!("{}.{ext}", p.rsplit_once('.').unwrap().0)
}

fn replaced(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_items: 1, max_res: 4, ..profile(t) };
    let mut tb = gen_table(t, &p);
    derive_legacy_tables(&mut tb);
    classes(&tb, c);
    let s = tb.streams();
    c.hash = streams_hash(&s);
    let mut f = expand(&parse(&s)?, 0, false)?;
    let mut nt = tb.clone();
    let mut what: Vec<String> = vec![];
    let j = json(&f, "images.json")?;
    for (i, im) in nt.images.iter_mut().enumerate() {
        if im.iter().any(|x| x.tag == "BITS" || x.tag == "LINK") || !t.bool() {
            continue;
        }
        let Some((mut file, ext)) = res_file("images", &j[i]) else { continue };
        ensure!(f.contains_key(&file), "{file} is missing");
        let (w, h, d);
        if ext == "png" && t.bool() {
            f.remove(&file);
            file = swap_ext(&file, "webp");
            (w, h, d) = encode_image(t, image::ImageFormat::WebP);
            c.class("png replaced by webp");
            let Val::Str(path) = im.iter().find(|x| x.tag == "PATH").unwrap().val.clone() else { unreachable!() };
            set_rec(im, "PATH", Val::Str(swap_ext(&path, "webp")));
            let Some(Val::Jpeg(jp)) = im.iter_mut().find(|x| x.tag == "JPEG").map(|x| &mut x.val) else { unreachable!() };
            let Val::Str(jpath) = jp.iter().find(|x| x.tag == "PATH").unwrap().val.clone() else { unreachable!() };
            if jpath != path {
                c.class("other path inside");
                // what becomes of a second path that differs is not specified
                c.nontrivial = false;
                return Ok(());
            }
            set_rec(jp, "PATH", Val::Str(swap_ext(&jpath, "webp")));
            if let Some(x) = j[i].get("width") {
                c.class_if(!x.is_null(), "stored size kept");
            }
        } else {
            let fmt = match ext.to_ascii_lowercase().as_str() {
                "png" => image::ImageFormat::Png,
                "jpg" | "jpeg" => image::ImageFormat::Jpeg,
                "webp" => image::ImageFormat::WebP,
                "hdr" => image::ImageFormat::Hdr,
                "exr" => image::ImageFormat::OpenExr,
                "tga" => image::ImageFormat::Tga,
                "gif" => image::ImageFormat::Gif,
                _ => image::ImageFormat::Bmp,
            };
            (w, h, d) = encode_image(t, fmt);
            c.class("image replaced");
        }
        for (k, tag, n) in [("width", "WDTH", w), ("height", "HGHT", h)] {
            if j[i].get(k).is_none_or(|x| x.is_null()) {
                set_rec(im, tag, Val::U32(n));
                c.class("size taken from the file");
            }
        }
        let Some(Val::Jpeg(jp)) = im.iter_mut().find(|x| x.tag == "JPEG").map(|x| &mut x.val) else { unreachable!() };
        set_rec(jp, "SIZE", Val::U32(d.len() as u32));
        set_rec(jp, "DATA", Val::Bytes(d.clone()));
        what.push(format!("{file} {w}x{h}"));
        f.insert(file, d);
    }
    let j = json(&f, "sounds.json")?;
    for (i, s) in nt.sounds.iter_mut().enumerate() {
        if !t.bool() {
            continue;
        }
        let Some((file, _)) = res_file("sounds", &j[i]) else { continue };
        ensure!(f.contains_key(&file), "{file} is missing");
        let n = t.small_len(90);
        let d = t.bytes(n);
        what.push(file.clone());
        if is_wav_path(&s.path) {
            let (ch, bits, rate) = (*t.pick(&[1u16, 2]), *t.pick(&[8u16, 16, 24]), *t.pick(&[8000u32, 44100, 48000]));
            let al = ch * bits / 8;
            s.fmt = (1, ch, rate, rate * al as u32, al, bits, 0);
            f.insert(file, wav((1, ch, rate, rate * al as u32, al, bits), &d));
            c.class("WAV sound replaced");
        } else {
            f.insert(file, d.clone());
            c.class("compressed sound replaced");
        }
        s.data = d;
    }
    let j = json(&f, "fonts.json")?;
    for (i, s) in nt.fonts.iter_mut().enumerate() {
        if !t.bool() {
            continue;
        }
        let Some((file, _)) = res_file("fonts", &j[i]) else { continue };
        ensure!(f.contains_key(&file), "{file} is missing");
        let n = t.small_len(90);
        s.data = t.bytes(n);
        what.push(file.clone());
        f.insert(file, s.data.clone());
        c.class("font replaced");
    }
    if t.chance(1, 3) {
        let s = gen_script(t);
        f.insert(format!("{ROOT}/script.vbs"), s.clone());
        nt.gd_set("CODE", Val::Code(s));
        what.push("script".into());
        c.class("script replaced");
    }
    if t.chance(1, 3) {
        nt.info.retain(|x| x.0 != "Screenshot");
        let k = format!("{ROOT}/screenshot.png");
        f.remove(&k);
        if t.bool() {
            let n = t.small_len(200);
            let d = t.bytes(n);
            f.insert(k, d.clone());
            nt.info.push(("Screenshot".into(), d));
            c.class("screenshot replaced or added");
        } else {
            c.class("no screenshot file");
        }
        what.push("screenshot".into());
    }
    c.nontrivial = !what.is_empty();
    c.evals = s.len() as u64;
    c.sample = Some(json!({"table": summary(&tb), "changes": what}));
    let got = assemble(&f).map_err(|e| format!("after {what:?}: {e}"))?;
    diff_streams(&normalise(&nt.streams()), &normalise(&save(&got)?)).map_err(|e| format!("after {what:?}: {e}"))
}

// ---- values that mean nothing ----

fn bad_enum(t: &mut Tape, lo: u32, hi: u32) -> Value {
    match t.below(8) {
        0 => json!(hi + 1),
        1 if lo > 0 => json!(lo - 1),
        1 => json!(-1),
        2 => json!(hi as f64 + 0.5),
        3 => json!(4294967296u64 + lo as u64),
        4 => json!(*t.pick(&["nonsense", "", "0", "default", "flat_", "None of these"])),
        5 => json!(t.bool()),
        6 => json!([0]),
        _ => json!({"value": 0}),
    }
}
fn bad_for(t: &mut Tape, v: &Val, key: &str) -> Option<Value> {
    let odd = [json!({"a": 1}), json!([1, 2])];
    let odd = |t: &mut Tape| t.pick(&odd).clone();
    Some(match v {
        Val::Bool(_) => t.pick(&[json!(1), json!("true"), json!("yes")]).clone(),
        Val::U32(_) if key == "type" => return None,
        Val::U32(_) => t.pick(&[json!(-1), json!(1.5), json!("1"), json!(4294967296u64), json!(true)]).clone(),
        Val::I32(_) if key == "type" => json!(*t.pick(&["nonsense", "", "basic "])),
        Val::I32(_) => t.pick(&[json!(2147483648u64), json!(1.5), json!("1"), json!(-2147483649i64), json!(true)]).clone(),
        Val::F32(_) => t.pick(&[json!("abc"), json!(""), json!("NaN|zzzzzzzz"), json!("NaN|00"), json!("NaN|0000c07f00"), json!("NaN"), json!("1,5"), json!(true)]).clone(),
        Val::Str(_) | Val::WStr(_) => match t.below(3) {
            0 => json!(5),
            1 => json!(true),
            _ => odd(t),
        },
        Val::Color(_) => t.pick(&[json!("red"), json!("#+1+2+3"), json!("+0#112233"), json!("#12345"), json!("#1234567"), json!("#gg0000"), json!("112233#"), json!(255), json!(""), json!("é12345"), json!("# 10203")]).clone(),
        Val::V2(_) | Val::V3(_) | Val::V3u(_) if key != "xy" => t.pick(&[json!([1]), json!({"x": 1.0}), json!(1), json!({"x": "a", "y": 1.0, "z": 1.0}), json!("0,0")]).clone(),
        _ => return None,
    })
}

fn refused(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_items: 3, max_res: 2, ..profile(t) };
    let mut tb = gen_table(t, &p);
    derive_legacy_tables(&mut tb);
    let s = tb.streams();
    let mut f = expand(&parse(&s)?, 0, false)?;
    let w: Option<String> = match t.below(8) {
        0..=3 if !tb.items.is_empty() => {
            let i = t.usize(0, tb.items.len() - 1);
            let it = &tb.items[i];
            let file = item_file(&f, i)?;
            let mut j = json(&f, &file)?;
            let ty = type_name(it.ty);
            let fs = &schema().items.iter().find(|x| x.0 == it.ty).unwrap().2;
            let enums: Vec<&Rec> = it.recs.iter().filter(|x| matches!(x.val, Val::Enum(_))).collect();
            let x = if !enums.is_empty() && t.bool() { *t.pick(&enums) } else { t.pick(&it.recs) };
            let key = x.key.trim_start_matches('#');
            let bad = if let Val::Enum(_) = x.val {
                let Kind::Enum(lo, hi) = fs.iter().find(|f| f.tag == x.tag).unwrap().kind else { unreachable!() };
                c.class("enumerated value of a part");
                Some(if key == "gate_type" { bad_enum(t, 0, u32::MAX - 1) } else if key == "space_reference" { json!(*t.pick(&["nonsense", "", "0"])) } else { bad_enum(t, lo, hi) })
            } else {
                bad_for(t, &x.val, key)
            };
            // any number is a gate type
            let bad = bad.filter(|b| key != "gate_type" || b.as_u64().is_none_or(|n| n > u32::MAX as u64));
            match bad {
                Some(b) if !key.is_empty() && key != "-" && !key.contains('[') => {
                    if x.key.starts_with('#') {
                        let mut ix = json(&f, "gameitems.json")?;
                        ix[i][key] = b.clone();
                        set_json(&mut f, "gameitems.json", &ix);
                        c.class("index value");
                    } else {
                        let o = inner(&mut j);
                        ensure!(o.contains_key(key), "{file}: no key {key}");
                        o.insert(key.into(), b.clone());
                        set_json(&mut f, &file, &j);
                        c.class("value of a part");
                    }
                    Some(format!("{ty} {key} = {b}"))
                }
                _ => None,
            }
        }
        4 | 5 => {
            let mut j = json(&f, "gamedata.json")?;
            let en: Vec<&Rec> = tb.gd.iter().filter(|x| gd_enum(x).is_some()).collect();
            let x = if !en.is_empty() && t.bool() { *t.pick(&en) } else { t.pick(&tb.gd) };
            let bad = match gd_enum(x) {
                Some(_) if x.key == "tone_mapper" => Some(bad_enum(t, 0, u32::MAX - 1)).filter(|b| b.as_u64().is_none_or(|n| n > u32::MAX as u64)),
                Some(_) => Some(bad_enum(t, 0, 2)),
                None => bad_for(t, &x.val, x.key),
            };
            let derived = ["gameitems_size", "sounds_size", "images_size", "fonts_size", "collections_size", "materials_size"].contains(&x.key);
            match bad {
                Some(b) if !derived && !x.key.is_empty() && x.key != "-" && j.get(x.key).is_some() => {
                    j[x.key] = b.clone();
                    set_json(&mut f, "gamedata.json", &j);
                    c.class("game data");
                    Some(format!("{} = {b}", x.key))
                }
                _ => None,
            }
        }
        6 => {
            let (file, tag) = *t.pick(&[("materials.json", "MATR"), ("renderprobes.json", "RPRB")]);
            let l: Vec<&Rec> = tb.gd.iter().filter(|x| x.tag == tag).collect();
            if l.is_empty() {
                None
            } else {
                let i = t.usize(0, l.len() - 1);
                let Val::Nested(rs, _) = &l[i].val else { unreachable!() };
                let x = t.pick(rs);
                let bad = match &x.val {
                    Val::Enum(_) => Some(bad_enum(t, 0, if x.key == "type" { 1 } else { 6 })),
                    v => bad_for(t, v, x.key),
                };
                let mut j = json(&f, file)?;
                match bad {
                    Some(b) if j[i].get(x.key).is_some() => {
                        j[i][x.key] = b.clone();
                        set_json(&mut f, file, &j);
                        c.class("material or probe");
                        Some(format!("{file} {} = {b}", x.key))
                    }
                    _ => None,
                }
            }
        }
        _ => match t.below(4) {
            0 if !tb.sounds.is_empty() => {
                let mut j = json(&f, "sounds.json")?;
                let k = *t.pick(&["output_target", "fade", "name", "path"]);
                let b = match k {
                    "output_target" => bad_enum(t, 0, 1),
                    "fade" => bad_for(t, &Val::U32(0), "").unwrap(),
                    _ => json!(7),
                };
                j[0][k] = b.clone();
                set_json(&mut f, "sounds.json", &j);
                c.class("sound");
                Some(format!("sound {k} = {b}"))
            }
            1 => {
                let v = *t.pick(&["", "abc", "10.8", "-1", "99999999999", "1080x", "0x438"]);
                f.insert(format!("{ROOT}/version.txt"), v.as_bytes().to_vec());
                c.class("version");
                Some(format!("version.txt {v:?}"))
            }
            2 if !tb.colls.is_empty() => {
                let mut j = json(&f, "collections.json")?;
                let k = *t.pick(&["name", "items", "fire_events", "group_elements", "stop_single_events"]);
                j[0][k] = json!(3);
                set_json(&mut f, "collections.json", &j);
                c.class("collection");
                Some(format!("collection {k} = 3"))
            }
            _ => {
                let mut j = json(&f, "info.json")?;
                let k = *t.pick(&["table_name", "author_name", "properties", "properties_order", "table_save_rev"]);
                j[k] = json!(3);
                set_json(&mut f, "info.json", &j);
                c.class("table information");
                Some(format!("info {k} = 3"))
            }
        },
    };
    let Some(w) = w else {
        c.exclude("nothing to break");
        return Ok(());
    };
    c.hash = streams_hash(&s) ^ crate::tape::hash_bytes(w.as_bytes());
    c.nontrivial = true;
    c.sample = Some(json!({"broken": w}));
    match assemble(&f) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{w} is accepted")),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("forms", ctx.n(10000, 250000), "at least one part of the expanded table is spelled, named or stored in another way; distinct by stream contents", forms);
    ctx.sub("mesh files", ctx.n(6000, 150000), "a mesh or the frames of one replaced; distinct by stream contents", mesh_files_of);
    ctx.sub("lists", ctx.n(9000, 200000), "at least one list changed; distinct by stream contents", lists);
    ctx.sub("replaced", ctx.n(7000, 150000), "at least one file replaced; distinct by stream contents", replaced);
    ctx.sub("refused", ctx.n(14000, 200000), "one value made undefined; distinct by stream contents and value", refused);
}
