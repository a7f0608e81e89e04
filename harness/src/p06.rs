//! P06: in place edits and compaction.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p01::summary;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Cursor, Write};
use vpin::vpx::{self, VerifyResult};

/// A compound file of either sector size, streams created in a random order,
/// possibly with holes left by rewritten and removed streams.
pub fn build(t: &mut Tape, streams: &Streams) -> Vec<u8> {
    let v = if t.chance(1, 3) { cfb::Version::V4 } else { cfb::Version::V3 };
    let mut c = cfb::CompoundFile::create_with_version(v, Cursor::new(Vec::new())).unwrap();
    let keys: Vec<&String> = streams.keys().collect();
    let pm = t.perm(keys.len());
    c.create_storage("/GameStg").unwrap();
    c.create_storage("/TableInfo").unwrap();
    let holes = t.chance(1, 3);
    for i in pm {
        let k = keys[i];
        if let Some((dir, _)) = k.rsplit_once('/') {
            if !dir.is_empty() && !c.is_storage(dir) {
                c.create_storage_all(dir).unwrap();
            }
        }
        if holes && t.chance(1, 4) {
            let n = t.usize(0, 9000);
            c.create_stream(k).unwrap().write_all(&vec![7; n]).unwrap();
            if t.bool() {
                c.remove_stream(k).unwrap();
            }
        }
        c.create_stream(k).unwrap().write_all(&streams[k]).unwrap();
    }
    c.flush().unwrap();
    c.into_inner().into_inner()
}

pub fn gen_text(t: &mut Tape) -> String {
    let n = match t.below(8) {
        0 => 0,
        1..=3 => t.usize(0, 200),
        4 => *t.pick(&[4095usize, 4096, 4097, 512, 511, 64, 63, 65]),
        5 => t.usize(3000, 6000),
        6 => t.usize(0, 30000),
        _ => t.usize(0, 1000),
    };
    let words = ["Sub Table1_Init()", "End Sub", "' comment é", "\r\n", "\n", "\r", "  x = 1", "\u{feff}", "日本", "\"str\"", "\t"];
    let mut s = String::new();
    while s.len() < n {
        let w: &str = t.pick(&words);
        s.push_str(w);
        if t.chance(1, 16) {
            let k = (n - s.len().min(n)).min(3000);
            s.push_str(&"y".repeat(k));
        }
    }
    while s.len() > n {
        s.pop();
    }
    s
}

/// which images the conversion is about
fn convertible(img: &[Rec]) -> Option<&'static str> {
    let path = match img.iter().find(|x| x.tag == "PATH").map(|x| &x.val) {
        Some(Val::Str(s)) => s.clone(),
        _ => String::new(),
    };
    let ext = path.rsplit('.').next().unwrap_or("").to_lowercase();
    if ext == "png" && img.iter().any(|x| x.tag == "JPEG") {
        return Some("png");
    }
    if ext == "bmp" && img.iter().any(|x| x.tag == "BITS") {
        return Some("bmp");
    }
    None
}

fn history(t: &mut Tape, c: &mut Case) -> Res {
    let tables = t.chance(1, 2);
    let mut p0 = Prof { max_items: 3, max_res: 3, ..Default::default() };
    p0.images_decodable = true;
    let mut tb = gen_table(t, &p0);
    if t.chance(1, 4) {
        let n = t.usize(3000, 40000);
        tb.fonts.push(FontF { name: "f".into(), path: "f.ttf".into(), data: t.bytes(n) });
        tb.fix_counts();
    }
    let mut over: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    if tables {
        for (k, n) in [("/GameStg/Strange", 30), ("/Other/Sub/Thing", 5000), ("/Empty", 0), ("/GameStg/GameItem99999", 70), ("/TableInfo/Unlisted", 10)] {
            if t.bool() {
                let b = if n == 10 { utf16(&gen_wide(t)) } else { t.bytes(n) };
                over.insert(k.to_string(), b);
                c.class("unknown streams");
            }
        }
    }
    let model = |tb: &Table, over: &BTreeMap<String, Vec<u8>>| {
        let mut s = tb.streams();
        s.extend(over.clone());
        s
    };
    let d = crate::tmp::Dir::new();
    let p = d.path(*t.pick(&["t.vpx", "a.b.vpx", "noext", "Name with space (v1.2).vpx"]));
    let first = model(&tb, &over);
    c.hash = streams_hash(&first);
    std::fs::write(&p, build(t, &first)).unwrap();
    let vbs = d.path("script.vbs");
    let mut converted = false;
    let mut log = vec![];
    let n = t.usize(1, 7);
    let mut handle = None;
    for step in 0..n {
        let e = |e: std::io::Error| format!("step {step}: {e}");
        let op = t.below(7);
        let keep_handle = matches!(op, 0 | 1 | 4 | 5 | 6);
        if !keep_handle || t.chance(1, 3) {
            handle = None;
        }
        if keep_handle && handle.is_none() {
            handle = Some(vpx::open_rw(&p).map_err(e)?);
        }
        match op {
            0 | 1 => {
                let f = handle.as_mut().unwrap();
                let mut gd = f.read_gamedata().map_err(e)?;
                let s = gen_text(t);
                gd.set_code(s.clone());
                tb.gd_set("CODE", Val::Code(s.clone().into_bytes()));
                if t.bool() {
                    let nm = gen_wide(t);
                    gd.name = nm.clone();
                    tb.gd_set("NAME", Val::WStr(nm));
                }
                f.write_gamedata(&gd).map_err(e)?;
                log.push(format!("write game data, script of {} bytes", s.len()));
            }
            2 => {
                let s = gen_text(t);
                std::fs::write(&vbs, &s).unwrap();
                let q = vpx::importvbs(&p, Some(vbs.clone())).map_err(e)?;
                ensure!(q == vbs, "importvbs names {q:?}");
                std::fs::remove_file(&vbs).unwrap();
                tb.gd_set("CODE", Val::Code(s.clone().into_bytes()));
                log.push(format!("import script of {} bytes", s.len()));
            }
            3 => {
                let before = std::fs::metadata(&p).unwrap().len();
                vpx::compact(&p).map_err(e)?;
                let after = std::fs::metadata(&p).unwrap().len();
                ensure!(after <= before, "step {step}: compaction makes the file larger: {before} -> {after}");
                c.class_if(after < before, "compaction shrinks");
                log.push(format!("compact {before} -> {after}"));
            }
            4 | 5 => {
                let f = handle.as_mut().unwrap();
                let cnt = match tb.gd_get("TLCK") {
                    Some(Val::U32(n)) => *n,
                    _ => 0,
                };
                let done = if op == 4 { f.lock().map_err(e)? } else { f.unlock().map_err(e)? };
                let want = (cnt % 2 == 1) == (op == 5);
                ensure!(done == want, "step {step}: lock change reported wrongly");
                if want {
                    tb.gd.retain(|x| x.tag != "TLCK");
                    tb.gd.push(r("TLCK", "locked", Val::U32(cnt.wrapping_add(1))));
                }
                log.push(if op == 4 { "lock" } else { "unlock" }.into());
            }
            _ => {
                let f = handle.as_mut().unwrap();
                let got = f.images_to_webp().map_err(e)?;
                let mut want = vec![];
                if !converted {
                    for img in &tb.images {
                        if let (Some(k), Some(Val::Str(nm))) = (convertible(img), img.iter().find(|x| x.tag == "NAME").map(|x| &x.val)) {
                            want.push((nm.clone(), k.to_string(), "webp".to_string()));
                        }
                    }
                }
                let got: Vec<_> = got.into_iter().map(|x| (x.name, x.old_extension, x.new_extension)).collect();
                ensure!(got == want, "step {step}: conversions reported {got:?}, expected {want:?}");
                if !want.is_empty() {
                    c.class("images converted");
                    let now = dump_cfb(&std::fs::read(&p).unwrap())?;
                    for (i, img) in tb.images.iter().enumerate() {
                        if convertible(img).is_some() {
                            let k = format!("/GameStg/Image{i}");
                            over.insert(k.clone(), now.get(&k).cloned().ok_or("converted image lost")?);
                        }
                    }
                }
                converted = true;
                log.push(format!("to webp: {}", want.len()));
            }
        }
        let bytes = std::fs::read(&p).unwrap();
        let want = model(&tb, &over);
        diff_streams(&want, &dump_cfb(&bytes)?).map_err(|e| format!("step {step}, after {}: {e}", log[step]))?;
        ensure!(vpx::verify(&p) == VerifyResult::Ok(p.clone()), "step {step}: file does not verify after {}", log[step]);
        let names: Vec<_> = std::fs::read_dir(&d.0).unwrap().map(|x| x.unwrap().path()).collect();
        ensure!(names == vec![p.clone()], "step {step}: other files appeared: {names:?}");
    }
    drop(handle);
    // the file still opens and means what the model means
    let a = vpx::read(&p).map_err(|e| e.to_string())?;
    let b = parse(&model(&tb, &over))?;
    ensure!(a == b, "the edited file reads differently from the model after {log:?}");
    c.evals = n as u64;
    c.nontrivial = true;
    c.class_if(n > 3, "four or more operations");
    c.sample = Some(json!({"operations": log, "table": summary(&tb)}));
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("history", ctx.n(4000, 80000), "a history of one to seven operations; distinct by initial contents", history);
}
