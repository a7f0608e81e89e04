//! P15: edits through the table API against a list model.

use crate::engine::*;
use crate::ensure;
use crate::exp::*;
use crate::p01::summary;
use crate::p06::gen_text;
use crate::tape::Tape;
use crate::tgen::*;
use crate::wire::*;
use serde_json::json;
use vpin::vpx::{self, AddImageResult};

fn img_name(img: &[Rec]) -> String {
    match img.iter().find(|x| x.tag == "NAME").map(|x| &x.val) {
        Some(Val::Str(s)) => s.clone(),
        _ => String::new(),
    }
}
fn fold(s: &str) -> String {
    s.chars().map(|c| c.to_ascii_lowercase()).collect()
}

/// A name that equals, or almost equals, another.
fn near_name(t: &mut Tape, n: &str) -> String {
    match t.below(10) {
        0 => format!("{n} "),
        1 => format!(" {n}"),
        2 => format!("{n}1"),
        3 => n.chars().skip(1).collect(),
        4 => n.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect(),
        5 => n.chars().map(|c| c.to_ascii_uppercase()).collect(),
        6 => n.replace(['_', ' ', '-'], " "),
        7 => format!("{n}.png"),
        _ => n.into(),
    }
}

fn history(t: &mut Tape, c: &mut Case) -> Res {
    let p = Prof { max_items: 3, max_res: 2, ..Default::default() };
    let mut tb = if t.chance(1, 4) { Table { version: 1081, gd: crate::p01::base_gd(), ..Default::default() } } else { gen_table(t, &p) };
    tb.fix_counts();
    c.hash = streams_hash(&tb.streams());
    let have: Vec<String> = tb.images.iter().map(|m| img_name(m)).collect();
    // donors of parts and images
    let mut pool = Table { version: tb.version, gd: crate::p01::base_gd(), ..Default::default() };
    let k = t.usize(1, 6);
    pool.items = (0..k).map(|i| gen_item(t, &p, i)).collect();
    let k = t.usize(1, 8);
    pool.images = (0..k)
        .map(|i| {
            let mut m = gen_image(t, &p, i);
            // names that meet existing ones, in another case
            if t.chance(2, 3) {
                let n = *t.pick(&["img", "IMG", "Img", "é", "É", "a", "A", "K\u{b5}", "", "imgß"]);
                m[0].val = Val::Str(near_name(t, n));
            } else if !have.is_empty() {
                let n = t.pick(&have).clone();
                m[0].val = Val::Str(near_name(t, &n));
            }
            m
        })
        .collect();
    pool.fix_counts();
    let pv = parse(&pool.streams())?;
    let mut items: Vec<Option<_>> = pv.gameitems.into_iter().map(Some).collect();
    let mut v = parse(&tb.streams())?;
    let d = crate::tmp::Dir::new();
    let path = d.path("t.vpx");
    let mut log = vec![];
    let n = t.usize(1, 14);
    for step in 0..n {
        match t.below(7) {
            0 | 1 => {
                let i = t.usize(0, items.len() - 1);
                if let Some(it) = items[i].take() {
                    v.add_game_item(it);
                    tb.items.push(pool.items[i].clone());
                    log.push(format!("add {} {:?}", type_name(pool.items[i].ty), pool.items[i].name()));
                }
            }
            2 | 3 => {
                let i = t.usize(0, pool.images.len() - 1);
                let nm = img_name(&pool.images[i]);
                let res = v.add_or_replace_image(pv.images[i].clone());
                let at = tb.images.iter().position(|x| fold(&img_name(x)) == fold(&nm));
                match (at, res) {
                    (Some(k), AddImageResult::Replaced(old)) => {
                        ensure!(old.name == img_name(&tb.images[k]), "step {step}: replaced {:?} instead of {:?}", old.name, img_name(&tb.images[k]));
                        tb.images[k] = pool.images[i].clone();
                        c.class("image replaced");
                    }
                    (None, AddImageResult::Added) => {
                        tb.images.push(pool.images[i].clone());
                        c.class("image added");
                    }
                    (a, _) => return Err(format!("step {step}: image {nm:?} should {}", if a.is_some() { "replace one" } else { "be added" })),
                }
                log.push(format!("image {nm:?}"));
            }
            4 => {
                let s = gen_text(t);
                v.set_script(s.clone());
                tb.gd_set("CODE", Val::Code(s.into_bytes()));
                log.push("script".into());
            }
            5 => {
                v = vpx::from_bytes(&vpx::to_bytes(&v).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                log.push("save and reopen in memory".into());
                c.class("reopened");
            }
            _ => {
                vpx::write(&path, &v).map_err(|e| e.to_string())?;
                v = vpx::read(&path).map_err(|e| e.to_string())?;
                log.push("save and reopen".into());
                c.class("reopened");
            }
        }
        tb.fix_counts();
        ensure!(v.gameitems.len() == tb.items.len() && v.images.len() == tb.images.len(), "step {step}: list lengths");
        ensure!(v.gamedata.gameitems_size as usize == tb.items.len() && v.gamedata.images_size as usize == tb.images.len(), "step {step} ({:?}): counts {} items {} images, expected {} and {}", log.last(), v.gamedata.gameitems_size, v.gamedata.images_size, tb.items.len(), tb.images.len());
        for (i, it) in tb.items.iter().enumerate() {
            ensure!(v.gameitems[i].name() == it.name(), "step {step}: part {i} is {:?}, expected {:?}", v.gameitems[i].name(), it.name());
        }
        for (i, m) in tb.images.iter().enumerate() {
            ensure!(v.images[i].name == img_name(m), "step {step}: image {i} is {:?}, expected {:?}", v.images[i].name, img_name(m));
        }
    }
    diff_streams(&tb.streams(), &save(&v)?)?;
    // all ways of reading agree
    vpx::write(&path, &v).map_err(|e| e.to_string())?;
    readers(&path, &tb)?;
    c.evals = n as u64;
    c.nontrivial = log.len() > 1;
    c.sample = Some(json!({"operations": log, "table": summary(&tb)}));
    Ok(())
}

/// from memory, from a path, read-only, read-write, part by part
fn readers(path: &std::path::Path, tb: &Table) -> Res {
    let e = |e: std::io::Error| e.to_string();
    let bytes = std::fs::read(path).unwrap();
    let a = vpx::read(path).map_err(e)?;
    let b = vpx::from_bytes(&bytes).map_err(e)?;
    ensure!(a == b, "read and from_bytes differ");
    for rw in [false, true] {
        let mut f = if rw { vpx::open_rw(path).map_err(e)? } else { vpx::open(path).map_err(e)? };
        ensure!(f.read_version().map_err(e)? == a.version, "version differs");
        ensure!(f.read_version().map_err(e)?.u32() == tb.version, "version is not the stored one");
        ensure!(f.read_tableinfo().map_err(e)? == a.info, "table info differs");
        ensure!(f.read_custominfotags().map_err(e)? == a.custominfotags, "custom tags differ");
        ensure!(f.read_custominfotags().map_err(e)? == tb.cust, "custom tags are not the stored ones");
        ensure!(f.read_gamedata().map_err(e)? == a.gamedata, "game data differ");
        ensure!(f.read_gameitems().map_err(e)? == a.gameitems, "game items differ");
        ensure!(f.read_images().map_err(e)? == a.images, "images differ");
        ensure!(f.read_sounds().map_err(e)? == a.sounds, "sounds differ");
        ensure!(f.read_fonts().map_err(e)? == a.fonts, "fonts differ");
        ensure!(f.read_collections().map_err(e)? == a.collections, "collections differ");
        ensure!(f.is_locked().map_err(e)? == (a.gamedata.locked.unwrap_or(0) % 2 == 1), "lock state differs");
    }
    ensure!(std::fs::read(path).unwrap() == bytes, "reading changed the file");
    ensure!(a.gameitems.len() == tb.items.len() && a.images.len() == tb.images.len() && a.sounds.len() == tb.sounds.len() && a.fonts.len() == tb.fonts.len() && a.collections.len() == tb.colls.len(), "list lengths differ from the stored ones");
    for (x, y) in a.sounds.iter().zip(&tb.sounds) {
        ensure!(x.name == y.name && x.path == y.path && x.data == y.data && x.volume == if tb.version < 1031 { 0 } else { y.volume }, "sound {:?} differs from the stored one", y.name);
    }
    for (x, y) in a.fonts.iter().zip(&tb.fonts) {
        ensure!(x.name == y.name && x.path == y.path && x.data == y.data, "font {:?} differs from the stored one", y.name);
    }
    for (x, y) in a.collections.iter().zip(&tb.colls) {
        let s = |tag: &str| y.iter().filter(|r| r.tag == tag).map(|r| match &r.val { Val::WStr(s) => s.clone(), _ => String::new() }).collect::<Vec<_>>();
        let b = |tag: &str| y.iter().any(|r| r.tag == tag && r.val == Val::Bool(true));
        ensure!(vec![x.name.clone()] == s("NAME") && x.items == s("ITEM") && x.fire_events == b("EVNT") && x.stop_single_events == b("SSNG") && x.group_elements == b("GREL"), "collection {:?} differs from the stored one", x.name);
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    ctx.sub("history", ctx.n(6000, 120000), "a history of at least two edits; distinct by initial table", history);
}
